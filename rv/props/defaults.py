"""C30: arguments which are left out take the documented values.

Every entry point is run twice on the same data, with an argument left out and
with the value its documentation gives, in situations where another value
would show; the two runs must agree exactly.
"""
import numpy as np

from .. import gen
from ..core import Prop
from ..lib import TYLER, STUDENT, HUBER, TYLER_FP, STUDENT_FP, HUBER_FP, \
    TYLER_NG, EMPIRICAL, TYLER_COST, structured, probability, mappings, \
    linalg, base, frozen, checking, verbose, NORMS
from .reports import streams

C30 = Prop('C30', 'distinct (entry point, argument left out, situation) in '
           'which another value of the argument was seen to matter',
           assumptions=['the documented defaults are those of the docstrings '
                        'of the pinned commit'], scale=8)

# (name, real/complex entry points, required arguments, documented defaults)
ITERATIVE = {
    'huber': (HUBER, HUBER_FP, lambda ctx: (ctx.pick((.6, .9)),)),
    'student': (STUDENT, STUDENT_FP, lambda ctx: (ctx.pick((1., 3.)),)),
    'tyler': (TYLER, TYLER_FP, lambda ctx: ()),
}
OTHER = {       # values that must not be taken for the default
    'tol': (3e-5, 3e-4, 1e-2), 'iter_max': (28, 29, 31, 32, 99, 101, 60),
    'normalisation': NORMS[1:], 'init': None}


def outcome(kind, iface, cplx, args, X, kw):
    cls, fun, _ = ITERATIVE[kind]
    kw = dict(kw)
    init = {'init': kw.pop('init')} if 'init' in kw else {}
    if iface == 'function':
        return fun[cplx](X, *args, **init, **kw)
    e = cls[cplx](*args, **kw).fit(X, **init)
    return e.covariance_, e.err_, e.iteration_


def same(ctx, a, b, **details):
    for x, y in zip(a, b):
        ctx.check(np.shape(x) == np.shape(y) and np.array_equal(
            np.asarray(x), np.asarray(y), equal_nan=True), 'an argument left '
            'out is not the documented default', **details)


def differs(a, b):
    return any(np.shape(x) != np.shape(y) or not np.array_equal(
        np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


@C30.case(quick=96)
def iterative(ctx):
    kind, arg, iface, cplx = ctx.cyc(
        tuple(ITERATIVE), ('tol', 'iter_max', 'normalisation', 'init',
                           'method', 'verbosity', 'all'),
        ('class', 'function'), (False, True))
    if kind != 'tyler' and arg in ('normalisation', 'method'):
        arg = ctx.pick(('tol', 'iter_max'))
    if arg == 'method' and iface == 'function':
        arg = 'normalisation'
    p = ctx.integers(2, 5)
    X = frozen(gen.samples(ctx.rng, 3*p+ctx.integers(2, 20), p, cplx,
                           ctx.pick(('gauss', 't', 'gamma', 'skew'))))
    args = ITERATIVE[kind][2](ctx)
    doc = {'tol': 1e-4, 'iter_max': 100 if iface == 'class' else 30,
           'init': None, 'verbosity': False}
    if kind == 'tyler':
        doc['normalisation'] = 'None'
        if iface == 'class':
            doc['method'] = 'fixed-point'
    given = dict(doc)
    if arg == 'iter_max':       # the budget is what stops the run
        given['tol'] = 0.
    elif arg != 'all':
        given['tol'] = 10.**ctx.rng.uniform(-9, -1) if arg != 'tol' else 1e-4
        given['iter_max'] = ctx.integers(2, 300) if arg != 'tol' else 5000
    left = {k: v for k, v in given.items() if k != arg}
    if arg == 'all':
        left = {}
    with streams() as (out, err):
        got = outcome(kind, iface, cplx, args, X, left)
        quiet = not (out.getvalue()+err.getvalue()).strip()
        want = outcome(kind, iface, cplx, args, X, given)
    same(ctx, got, want, kind=kind, iface=iface, argument=arg, cplx=cplx)
    if arg in ('verbosity', 'all'):
        ctx.check(quiet, 'a fit is not verbose by default', kind=kind)
    if OTHER.get(arg):
        v = ctx.pick(OTHER[arg])
        with streams():
            other = outcome(kind, iface, cplx, args, X, dict(given, **{
                arg: v}))
        if differs(other, want):
            ctx.sig(kind, arg, iface, cplx, v)
    else:
        ctx.sig(kind, arg, iface, cplx)


@C30.case(quick=16)
def natural_gradient(ctx):
    arg, cplx = ctx.cyc(('normalisation', 'verbosity', 'init'),
                        (False, True))
    p = ctx.integers(2, 4)
    X = frozen(gen.samples(ctx.rng, 6*p+6, p, cplx, 't'))
    start = gen.spd(ctx.rng, p, cplx, 3.)
    kw = {'normalisation': 'None', 'verbosity': False, 'init': start}
    left = {k: v for k, v in kw.items() if k != arg}
    with streams() as (out, err):
        if arg == 'init':       # a random start: only the solution is defined
            left['normalisation'] = kw['normalisation'] = 'trace'
        got = TYLER_NG[cplx](X, **left)
        quiet = not (out.getvalue()+err.getvalue()).strip()
        want = TYLER_NG[cplx](X, **kw)
    if arg == 'init':
        ctx.close(got[0], want[0], 5e-2, 'the start by default')
    else:
        ctx.close(got[0], want[0], 1e-9, 'an argument left out is not the '
                  'documented default', argument=arg)
    ctx.check(quiet, 'not verbose by default')
    ctx.sig('natural gradient', arg, cplx)


@C30.case(quick=32)
def kronecker(ctx):
    arg, cplx = ctx.cyc(('tol', 'iter_max', 'verbosity', 'all'),
                        (False, True))
    a, b = ctx.integers(2, 3), ctx.integers(2, 3)
    X = frozen(gen.samples(ctx.rng, a*b+ctx.integers(1, 20), a*b, cplx,
                           ctx.pick(('t', 'gamma', 'scaled'))))
    doc = {'tol': .001, 'iter_max': 30, 'verbosity': False}
    given = dict(doc)
    if arg == 'iter_max':
        given['tol'] = 0.
    elif arg == 'tol':
        given['iter_max'] = 1000
    left = {} if arg == 'all' else {k: v for k, v in given.items()
                                    if k != arg}
    with streams() as (out, err):
        got = structured.estimation_cov_kronecker_MM(X, a, b, **left)
        quiet = not (out.getvalue()+err.getvalue()).strip()
        want = structured.estimation_cov_kronecker_MM(X, a, b, **given)
    same(ctx, got, want, kind='MM', argument=arg, cplx=cplx)
    ctx.check(quiet, 'not verbose by default')
    ctx.sig('MM', arg, cplx, got[3])


@C30.case(quick=16)
def kronecker_student(ctx):
    """By default: centred data, and the identity as initial point."""
    a, b = ctx.integers(1, 3), ctx.integers(1, 3)
    df = ctx.pick((1., 3., 20.))
    X = frozen(gen.samples(ctx.rng, 4*a*b+8, a*b, True, 't'))
    K = structured.KroneckerStudent
    with streams() as (out, err):
        got = K(a, b, df).fit(X)
        quiet = not (out.getvalue()+err.getvalue()).strip()
        want = K(a, b, df).fit(X, init=(np.eye(a), np.eye(b)))
        free = K(a, b, df, assume_centered=False).fit(X)
    same(ctx, (got.covariance_, got.location_),
         (want.covariance_, want.location_), kind='KroneckerStudent',
         argument='init')
    same(ctx, (got.location_,), (np.zeros(a*b),), kind='KroneckerStudent',
         argument='mean')
    ctx.check(quiet, 'not verbose by default')
    if differs((free.location_,), (got.location_,)):
        ctx.sig('KroneckerStudent', a, b, df)
    ctx.sig('KroneckerStudent start', a, b, df)


@C30.case(quick=48)
def distributions(ctx):
    law, what, left = ctx.cyc(('normal', 't'), ('logpdf', 'pdf', 'rvs'),
                              ('location', 'scatter', 'size'))
    p = ctx.integers(1, 4)
    D = probability.complex_multivariate_normal if law == 'normal' else \
        probability.complex_multivariate_t
    loc, scat = ('mean', 'cov') if law == 'normal' else ('loc', 'shape')
    kw = {loc: gen.randn(ctx.rng, (p,), True),
          scat: gen.spd(ctx.rng, p, True, 5.)}
    if law == 't':
        kw['df'] = ctx.pick((1., 2.5, 8.))
    if left == 'location':
        full = dict(kw, **{loc: np.zeros(p, complex)})
    elif left == 'scatter':
        full = dict(kw, **{scat: np.eye(p, dtype=complex)})
    else:
        full = kw
    short = {k: v for k, v in full.items()
             if k != {'location': loc, 'scatter': scat}.get(left)}
    seed = ctx.integers(0, 2**31-1)
    if what == 'rvs':
        extra = {} if left == 'size' else {'size': 5}
        got = D.rvs(random_state=seed, **short, **extra)
        want = D.rvs(random_state=seed, size=extra.get('size', 1), **full)
    else:
        X = gen.randn(ctx.rng, (7, p), True)
        got = getattr(D, what)(X, **short)
        want = getattr(D, what)(X, **full)
        if left == 'size':      # the frozen form has the same defaults
            got = getattr(D(**{k: v for k, v in kw.items()}), what)(X)
    ctx.close(got, want, 1e-12, 'a parameter left out is not the documented '
              'default', law=law, what=what, left=left)
    if law == 't' and what != 'rvs':    # df: one by default
        X = gen.randn(ctx.rng, (7, p), True)
        kw.pop('df')
        ctx.close(getattr(D, what)(X, **kw), getattr(D, what)(X, df=1, **kw),
                  1e-12, 'degrees of freedom by default')
    ctx.sig(law, what, left, p)


@C30.case(quick=48)
def tolerances(ctx):
    """Relative 1e-05 and absolute 1e-08, on both sides of the limit."""
    cplx, arg = ctx.cyc((False, True), ('rtol', 'atol', 'both'))
    f = mappings.check_Hermitian if cplx else mappings.check_Symmetric
    given = {'rtol': 1e-5, 'atol': 1e-8}
    if arg == 'rtol':
        given['atol'] = 0.
    elif arg == 'atol':
        given['rtol'] = 0.
    short = {k: v for k, v in given.items() if arg not in (k, 'both')}
    p = ctx.integers(2, 5)
    A = gen.herm(ctx.rng, p, cplx)
    A = gen.herm_part(A+np.sign(A.real)*.5)
    size = given['rtol']*np.abs(A[0, 1])+given['atol']
    for factor in (0., .3, .9, 1.2, 5.):
        B = A.copy()
        B[0, 1] += factor*size
        got = bool(f(B, **short))
        ctx.check(got == bool(f(B, **given)), 'tolerances by default',
                  factor=factor, argument=arg)
        ctx.check(got == (factor < 1), 'documented tolerance', factor=factor,
                  argument=arg)
    ctx.sig('tolerance', cplx, arg, p)


@C30.case(quick=32)
def others(ctx):
    what, cplx = ctx.cyc(('empirical function', 'empirical', 'error norm',
                          'cost', 'batch', 'matprint', 'positive'),
                         (False, True))
    p = ctx.integers(2, 5)
    X = frozen(gen.randn(ctx.rng, (3*p+4, p), cplx)+3.)
    if what == 'empirical function':
        f = base.complex_empirical_covariance
        X = X.astype(complex)
        same(ctx, (f(X),), (f(X, assume_centered=False),), kind=what)
        ctx.check(differs((f(X),), (f(X, assume_centered=True),)),
                  'centring has no effect')
    elif what == 'empirical':
        E = EMPIRICAL[cplx]
        a, b = E().fit(X), E(assume_centered=False,
                             store_precision=True).fit(X)
        same(ctx, (a.covariance_, a.location_, a.precision_),
             (b.covariance_, b.location_, b.precision_), kind=what)
        ctx.close(a.location_, X.mean(0), 1e-12, 'data are centred by default')
    elif what == 'error norm':
        e = EMPIRICAL[cplx]().fit(X)
        C = gen.spd(ctx.rng, p, cplx)
        want = e.error_norm(C, norm='frobenius', scaling=True, squared=True)
        for kw in ({}, {'norm': 'frobenius'}, {'scaling': True},
                   {'squared': True}):
            same(ctx, (e.error_norm(C, **kw),), (want,), kind=what)
    elif what == 'cost':
        Q = gen.spd(ctx.rng, p, cplx)
        f = TYLER_COST[cplx]
        same(ctx, (f(X, Q),), (f(X, Q, autograd=False),), kind=what)
    elif what == 'batch':
        S = np.array([X, 2*X])
        T = base.CovariancesEstimation
        ctx.check(T(EMPIRICAL[cplx]()).n_jobs == 1, 'one job by default')
        same(ctx, (T(EMPIRICAL[cplx]()).transform(S),),
             (T(EMPIRICAL[cplx](), n_jobs=1).transform(S),), kind=what)
    elif what == 'matprint':
        A = X[:3]*10.**ctx.integers(-6, 9)
        with streams() as (a, _):
            verbose.matprint(A)
        with streams() as (b, _):
            verbose.matprint(A, 'g')
        ctx.check(a.getvalue() == b.getvalue() != '', 'general format by '
                  'default')
    else:
        ctx.raises(Exception, lambda: checking.check_positive(0, 'x'),
                   'zero is not positive by default')
        checking.check_positive(0, 'x', strictly=False)
        A = linalg.sqrtm(gen.spd(ctx.rng, p, cplx))
        ctx.check(np.all(np.isfinite(A)), 'finite')
    ctx.sig(what, cplx, p)


PROPS = {p.id: p for p in (C30,)}
