"""C31: calls do not interfere with their arguments or with each other.

One registry of calls (function or method, arguments) covers the library; the
monitors run them on arrays of every memory layout, again after other calls,
again on the same arrays with other contents, after the caller overwrote the
previous result, and from several threads at once.
"""
import copy
import sys
import threading

import numpy as np

from .. import gen
from ..core import Prop
from ..lib import linalg as L, mappings as M, probability as P, manifolds, \
    cost, TYLER_FP, STUDENT_FP, HUBER_FP, TYLER_NG, TYLER, STUDENT, HUBER, \
    EMPIRICAL, base, structured, generation_data as G, online, NORMS, cov

C31 = Prop('C31', 'distinct (call, situation: memory layout, history or '
           'concurrent calls) whose result was compared with that of the '
           'same call alone on fresh arrays', scale=24,
           assumptions=['generators of random numbers are compared under the '
                        'same seed, and not between threads (the global '
                        'generator of numpy is shared by definition)'])


# -- arguments ---------------------------------------------------------------
def spd(c, p, x):
    return gen.spd(c.rng, p, x, 8.)


def data(c, p, x):
    return gen.samples(c.rng, 3*p+c.integers(1, 9), p, x,
                       c.pick(('gauss', 't', 'skew')))


def unit(c, p):
    m = gen.spd(c.rng, p, True, 8.)
    return m/np.exp(np.linalg.slogdet(m)[1]/p)


class Geometry:
    """A manifold with points and tangent vectors."""

    def __init__(self, c, p, kind):
        self.c, self.p, self.kind = c, p, kind
        self.b = c.integers(1, 3)
        self.man = {
            'hpd': lambda: manifolds.HermitianPositiveDefinite(p),
            'stack': lambda: manifolds.HermitianPositiveDefinite(p, k=2),
            'shpd': lambda: manifolds.SpecialHermitianPositiveDefinite(p),
            'spv': lambda: manifolds.StrictlyPositiveVectors(p),
            'product': lambda: manifolds.WeightedProduct(
                (manifolds.HermitianPositiveDefinite(p),
                 manifolds.StrictlyPositiveVectors(self.b)), (.7, 2.)),
            'kron': lambda:
                manifolds.KroneckerHermitianPositiveElliptical(
                    p, self.b, (3+p*self.b)/(4+p*self.b))}[kind]()

    def point(self):
        c, p = self.c, self.p
        return {'hpd': lambda: spd(c, p, True),
                'stack': lambda: np.array([spd(c, p, True)
                                           for _ in range(2)]),
                'shpd': lambda: unit(c, p),
                'spv': lambda: np.exp(c.rng.randn(p, 1)),
                'product': lambda: [spd(c, p, True),
                                    np.exp(c.rng.randn(self.b, 1))],
                'kron': lambda: [unit(c, p), spd(c, self.b, True)],
                }[self.kind]()

    def vector(self, x):
        c = self.c
        if self.kind == 'spv':
            return .3*c.rng.randn(*x.shape)*x
        if self.kind in ('product', 'kron'):
            return [.3*c.rng.randn(*m.shape)*m if m.shape[1] == 1 and
                    self.kind == 'product' else
                    .3*self.man._manifolds[i].proj(m, gen.herm(
                        c.rng, len(m), True)) for i, m in enumerate(x)]
        h = np.array([gen.herm(c.rng, self.p, True) for _ in range(2)])
        return .3*(h if self.kind == 'stack' else self.man.proj(x, h[0]))


def geometry(kind, op):
    def build(c, p, x):
        # (a single unit determinant has no tangent directions)
        g = Geometry(c, max(p, 2) if kind in ('shpd', 'kron') else p, kind)
        x, y = g.point(), g.point()
        u, v, d = g.vector(x), g.vector(x), g.vector(y)
        args = {'dist': (x, y), 'log': (x, y), 'inner': (x, u, v),
                'norm': (x, u), 'exp': (x, u), 'retr': (x, u),
                'proj': (x, u), 'egrad2rgrad': (x, u),
                'transp': (x, y, u), 'zerovec': (x,), 'randvec': (x,),
                'rand': (), 'ehess2rhess': (x, d, u, v)}[op]
        return getattr(g.man, op), args
    return build


def fitted(cls, *args, attrs=('covariance_', 'location_', 'precision_'),
           **kw):
    def call(X):
        e = cls(*args, **kw).fit(X)
        return [getattr(e, a) for a in attrs]
    return call


def estimator_use(name):
    def build(c, p, x):
        kind = c.pick((TYLER, STUDENT, EMPIRICAL))
        args = (2.5,) if kind is STUDENT else ()
        e = kind[x](*args).fit(data(c, p, x))
        if name == 'error_norm':
            return (lambda S, n=c.pick(('frobenius', 'spectral')):
                    e.error_norm(S, norm=n)), (spd(c, p, x),)
        return getattr(e, name), (data(c, p, x),)
    return build


def features(c, p, x):
    k = c.integers(1, 3)
    a = [c.rng.randn(k, p, p), c.rng.randn(k, 2)]

    def call(m, v):
        f = base._FeatureArray(m.shape[1:], v.shape[1:])
        f.append([m, v])
        f.append([m, v])
        return [f.vectorize(), f[0].vectorize()] + f.export()
    return call, tuple(a)


def batch(what):
    def build(c, p, x):
        X = np.array([gen.samples(c.rng, 3*p+4, p, x) for _ in range(3)])
        e = what(STUDENT[x](3.))
        if what is base.CovariancesEstimation:
            return e.transform, (X,)
        return (lambda X: e.transform(X).export()), (X,)
    return build


def stream(c, p, x):
    man = manifolds.HermitianPositiveDefinite(p)

    def call(X, S):
        e = online.StochasticGradientCovarianceEstimator(
            man, lambda X, S: S-X.T@X.conj()/len(X), .1)
        e.fit(X, init=S)
        return [e.estimate_, e.covariance_]
    return call, (data(c, p, True), spd(c, p, True))


def law(name, kind):
    def build(c, p, x):
        mean = gen.randn(c.rng, (p,), x)
        S = spd(c, p, x)
        X = gen.randn(c.rng, (c.integers(1, 5), p), x)
        gen_ = {'normal': P.complex_multivariate_normal,
                't': P.complex_multivariate_t}[kind]
        extra = (2.5,) if kind == 't' else ()
        if name == 'rvs':
            return (lambda m, S: gen_.rvs(m, S, *extra, size=3)), (mean, S)
        if name == 'frozen':
            return (lambda m, S, X: gen_(m, S, *extra).logpdf(X)), \
                (mean, S, X)
        if name == 'entropy':
            return (lambda m, S: gen_.entropy(m, S, *extra)), (mean, S)
        return (lambda X, m, S: getattr(gen_, name)(X, m, S, *extra)), \
            (X, mean, S)
    return build


def mm(c, p, x):
    a, b = c.integers(1, 3), c.integers(1, 2)
    X = gen.samples(c.rng, 5*a*b, a*b, True, 't')
    return (lambda X: structured.estimation_cov_kronecker_MM(
        X, a, b, tol=1e-3, iter_max=5)), (X,)


def kron_student(c, p, x):
    a, b = 2, c.integers(1, 2)
    X = gen.samples(c.rng, 3*a*b, a*b, True, 't')
    init = (unit(c, a), spd(c, b, True))
    return (lambda X, i: structured.KroneckerStudent(a, b, 3.).fit(
        X, init=i).covariance_), (X, init)


def square(f, *extra):
    return lambda c, p, x: (lambda m: f(m, *extra), (spd(c, p, x),))


def loop(f, *extra, **kw):
    """An estimation function with an initial point."""
    def build(c, p, x):
        if 'tol' in kw:
            kw.update(iter_max=c.pick((0, 1, 6, 6)), tol=c.pick((1e-3, 0.)))
        if f in (TYLER_FP, TYLER_NG):
            kw['normalisation'] = c.pick(NORMS)
        return bound(dict(kw), c, p, x)

    def bound(kw, c, p, x):
        args = (data(c, p, x), spd(c, p, x))
        return (lambda X, i: f[x](X, *extra, init=i, **kw)), args
    return build


GEOMETRY_OPS = ('dist', 'log', 'inner', 'norm', 'exp', 'retr', 'proj',
                'egrad2rgrad', 'transp', 'zerovec')
CALLS = {
    'sqrtm': square(L.sqrtm), 'invsqrtm': square(L.invsqrtm),
    'logm': square(L.logm), 'expm': square(L.expm),
    'powm': square(L.powm, -.4), 'hermitian': lambda c, p, x: (
        L.hermitian, (gen.randn(c.rng, (p, p), x),)),
    'multiherm': lambda c, p, x: (
        L.multiherm, (gen.randn(c.rng, (2, p, p), x),)),
    'multihconj': lambda c, p, x: (
        L.multihconj, (gen.randn(c.rng, (2, p, p), x),)),
    **{f: (lambda c, p, x, f=getattr(L, f): (
        f, (gen.randn(c.rng, (p, p), x),))) for f in ('vec', 'vech')},
    'unvec': lambda c, p, x: (L.unvec, (gen.randn(c.rng, (p*p,), x),)),
    'unvech': lambda c, p, x: (
        L.unvech, (gen.randn(c.rng, (p*(p+1)//2,), x),)),
    'ToeplitzMatrix': lambda c, p, x: (
        lambda r: L.ToeplitzMatrix(r[0], p), (c.rng.uniform(.1, .9, 1),)),
    'arraytoreal': lambda c, p, x: (M.arraytoreal, (data(c, p, x),)),
    'arraytocomplex': lambda c, p, x: (
        M.arraytocomplex, (data(c, 2*p, False),)),
    'covariancetoreal': square(M.covariancetoreal),
    'covariancetocomplex': lambda c, p, x: (
        M.covariancetocomplex, (M.covariancetoreal(spd(c, p, True)),)),
    'covariancestoreal': lambda c, p, x: (
        M.covariancestoreal, (np.array([spd(c, p, True)
                                        for _ in range(3)]),)),
    'covariancestocomplex': lambda c, p, x: (
        M.covariancestocomplex,
        (np.array([M.covariancetoreal(spd(c, p, True))
                   for _ in range(3)]),)),
    'check_Hermitian': lambda c, p, x: (M.check_Hermitian, (spd(c, p, x),)),
    'check_Symmetric': lambda c, p, x: (
        M.check_Symmetric, (spd(c, p, False),)),
    'Tyler cost': lambda c, p, x: (
        cost.Tyler_cost_complex if x else cost.Tyler_cost_real,
        (data(c, p, x), spd(c, p, x))),
    'complex empirical': lambda c, p, x: (
        lambda X, a=bool(c.integers(0, 1)):
        base.complex_empirical_covariance(X, assume_centered=a),
        (data(c, p, True),)),
    'empirical': lambda c, p, x: (
        lambda X, a=bool(c.integers(0, 1)):
        base.empirical_covariance(X, assume_centered=a),
        (data(c, p, False),)),
    'normalisation': lambda c, p, x: (
        cov.get_normalisation_function(c.pick(NORMS)), (spd(c, p, x),)),
    'tyler fixed point': loop(TYLER_FP, tol=1e-3, iter_max=6),
    'student fixed point': loop(STUDENT_FP, 2.5, tol=1e-3, iter_max=6),
    'huber fixed point': loop(HUBER_FP, .8, tol=1e-3, iter_max=6),
    'tyler fit': lambda c, p, x: (fitted(TYLER[x]), (data(c, p, x),)),
    'student fit': lambda c, p, x: (fitted(STUDENT[x], 3.), (data(c, p, x),)),
    'huber fit': lambda c, p, x: (fitted(HUBER[x], .9), (data(c, p, x),)),
    'empirical fit': lambda c, p, x: (
        fitted(EMPIRICAL[x], assume_centered=bool(c.integers(0, 1))),
        (data(c, p, x),)),
    'kronecker MM': mm, 'kronecker student': kron_student,
    'score': estimator_use('score'),
    'mahalanobis': estimator_use('mahalanobis'),
    'error norm': estimator_use('error_norm'),
    'covariances of trials': batch(base.CovariancesEstimation),
    'features of trials': batch(base.FeaturesEstimation),
    'feature array': features, 'online': stream,
    **{f'{k} {n}': law(n, k) for k in ('normal', 't')
       for n in ('logpdf', 'pdf', 'frozen', 'entropy')},
    **{f'{k} {o}': geometry(k, o)
       for k in ('hpd', 'stack', 'shpd', 'spv') for o in GEOMETRY_OPS},
    **{f'{k} {o}': geometry(k, o) for k in ('product', 'kron')
       for o in ('dist', 'log', 'inner', 'norm', 'exp', 'retr', 'proj',
                 'egrad2rgrad', 'zerovec')},
    'hpd ehess2rhess': geometry('hpd', 'ehess2rhess'),
    'spv ehess2rhess': geometry('spv', 'ehess2rhess'),
}
RANDOM = {
    'natural gradient': loop(TYLER_NG),
    **{f'{k} rvs': law('rvs', k) for k in ('normal', 't')},
    **{f'{k} {o}': geometry(k, o) for k in ('hpd', 'stack', 'shpd', 'spv',
                                            'product', 'kron')
       for o in ('rand', 'randvec')},
    'covariance': lambda c, p, x: (lambda: [
        G.generate_covariance(p+1), G.generate_complex_covariance(p+1)], ()),
    'frame': lambda c, p, x: (lambda: [
        G.generate_stiefel(p+1, p), G.generate_complex_stiefel(p+1, p)], ()),
    'textures': lambda c, p, x: (lambda: [
        G.generate_textures_gamma_dist(p),
        G.generate_textures_lognormal_dist(p)], ()),
    'normal samples': lambda c, p, x: (
        lambda S: (G.sample_complex_normal_distribution if x else
                   G.sample_normal_distribution)(4, S), (spd(c, p, x),)),
    'compound samples': lambda c, p, x: (
        lambda t, S: (G.sample_complex_compound_distribution if x else
                      G.sample_compound_distribution)(t, S),
        (c.rng.gamma(1., 1., (4, 1)), spd(c, p, x))),
    'low rank samples': lambda c, p, x: (
        lambda t, U: (G.sample_complex_tau_UUH_distribution if x else
                      G.sample_tau_UUH_distribution)(t, U),
        (c.rng.gamma(1., 1., (4, 1)), gen.randn(c.rng, (p+1, p), x))),
}
ALL = {**CALLS, **{'random '+k: v for k, v in RANDOM.items()}}
LAYOUTS = ('C', 'F', 'view', 'frozen', 'reversed')


# -- tools -------------------------------------------------------------------
def each(x):
    """The arrays in nested arguments or results."""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from each(y)
    elif x is not None:
        yield np.asarray(x)


def rebuilt(x, f):
    if isinstance(x, np.ndarray):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(rebuilt(y, f) for y in x)
    return x


def laid_out(a, layout):
    if layout == 'F':
        return np.array(a, order='F')
    if layout == 'view':
        big = np.full(tuple(2*s+1 for s in a.shape), np.nan, a.dtype)
        v = big[tuple(slice(1, 2*s+1, 2) for s in a.shape)]
        v[...] = a
        return v
    if layout == 'reversed':
        r = np.array(a[::-1], order='C')
        return r[::-1]
    out = np.array(a, order='C')
    if layout == 'frozen':
        out.flags.writeable = False
    return out


def agree(ctx, got, want, msg, call, **details):
    # (bit-identical here, but vectorised loops may depend on alignment, and
    # solvers amplify rounding up to their own accuracy)
    tol = 5e-3 if 'gradient' in call or 'kronecker' in call else 1e-8
    details['call'] = call
    got, want = list(each(got)), list(each(want))
    ctx.check(len(got) == len(want), msg, **details)
    for g, w in zip(got, want):
        ctx.check(g.shape == w.shape and g.dtype.kind == w.dtype.kind,
                  msg, **details, left=str(g.dtype), right=str(w.dtype))
        if g.dtype.kind in 'fc' and np.all(np.isfinite(w)):
            ctx.close(g, w, tol, msg, **details)
        else:
            ctx.equal(g, w, msg, **details)


def run(name, fn, args, seed=7):
    if name.startswith('random '):
        np.random.seed(seed)
    return fn(*args)


def build(ctx, name):
    p = ctx.integers(1, 4)
    return ALL[name](ctx, p, bool(ctx.integers(0, 1)))


@C31.case(quick=len(ALL))
def arguments(ctx):
    """No argument is modified, whatever its memory layout; the layout does
    not matter to the result."""
    name = ctx.cyc(tuple(ALL))
    layout = LAYOUTS[ctx.index//len(ALL) % 5]
    fn, args = build(ctx, name)
    given = rebuilt(args, lambda a: laid_out(a, layout))
    before = rebuilt(given, lambda a: a.copy())
    if not name.startswith('random '):
        np.random.seed(3)
    state = copy.deepcopy(np.random.get_state())
    got = run(name, fn, given)
    for a, b in zip(each(given), each(before)):
        ctx.equal(a, b, 'an argument is modified', call=name, layout=layout)
    if not name.startswith('random '):
        now = np.random.get_state()
        ctx.check(all(np.array_equal(a, b) for a, b in zip(state, now)),
                  'the global random generator is consumed', call=name)
    want = run(name, fn, rebuilt(args, lambda a: laid_out(a, 'C')))
    agree(ctx, got, want, 'the result depends on the memory layout',
          call=name, layout=layout)
    ctx.sig('layout', name, layout)
    ctx.sample(call=name, layout=layout)


@C31.case(quick=len(ALL))
def repeated(ctx):
    """A call gives what it gives alone, after other calls, on arrays whose
    contents changed, after its previous result was overwritten."""
    name = ctx.cyc(tuple(ALL))
    fn, args = build(ctx, name)
    alone = copy.deepcopy(run(name, fn, rebuilt(args, np.copy)))
    mine = rebuilt(args, np.copy)
    situations = ('again', 'overwritten', 'contents', 'others', 'other size')
    what = situations[ctx.index//len(ALL) % 5] if ctx.index >= len(ALL) \
        else ctx.pick(situations)
    first = run(name, fn, mine)
    agree(ctx, first, alone, 'equal arrays, other results', call=name)
    if what == 'overwritten':
        args_in = list(each(mine))
        for r in each(first):
            # (a result may be a view of an argument)
            if r.flags.writeable and not any(np.shares_memory(r, a)
                                             for a in args_in):
                r[...] = 7
    elif what == 'contents':
        held = list(each(mine))
        if held:
            # other contents, as valid: the rows in another order
            other = rebuilt(args, lambda a: a[::-1].copy()
                            if a.ndim == 2 and len(a) != a.shape[1]
                            else a.copy())
            for h, o in zip(held, each(other)):
                h[...] = o
            want = copy.deepcopy(run(name, fn, rebuilt(other, np.copy)))
            agree(ctx, run(name, fn, mine), want, 'the result is that of '
                  'the former contents of the array', call=name)
            # ... rows and columns in another order
            if all(h.ndim == 2 and len(h) == h.shape[1] for h in held) and \
                    not ('shpd' in name or 'kron' in name):
                other = rebuilt(args, lambda a: np.array(a[::-1, ::-1]))
                for h, o in zip(held, each(other)):
                    h[...] = o
                want = copy.deepcopy(run(name, fn, rebuilt(other, np.copy)))
                agree(ctx, run(name, fn, mine), want, 'the result is that '
                      'of the former contents of the array', call=name)
            for h, o in zip(held, each(args)):
                h[...] = o
    elif what in ('others', 'other size'):
        for _ in range(6):
            other = ctx.pick(tuple(ALL)) if what == 'others' else name
            f, a = build(ctx, other)
            run(other, f, a, seed=9)
    agree(ctx, run(name, fn, mine), alone, 'the result depends on former '
          'calls', call=name, situation=what)
    ctx.sig('repeated', name, what)
    ctx.sample(call=name, situation=what)


def drawn(fn, args, seed):
    np.random.seed(seed)
    got = [copy.deepcopy(fn(*args)) for _ in range(2)]
    return [np.concatenate([a.ravel() for a in each(g)]) for g in got] + \
        [np.random.rand(3)]


@C31.case(quick=len(RANDOM), min_decided=.9)
def draws(ctx):
    """Random results follow the seed the caller chose, differ from one call
    to the next, and leave a generator that goes on."""
    name = ctx.cyc(tuple(RANDOM))
    fn, args = RANDOM[name](ctx, ctx.integers(2, 4), bool(ctx.integers(0, 1)))
    if name == 'natural gradient':
        ctx.skip('deterministic once started')
    a = ctx.integers(0, 2**30)
    b = a + 1 + ctx.integers(0, 2**30)
    one, two, other = (drawn(fn, args, s) for s in (a, a, b))
    for x, y, z in zip(one, two, other):
        ctx.equal(x, y, 'the same seed gives other draws', call=name)
        ctx.check(not np.array_equal(x, z), 'other seeds give the same draws',
                  call=name)
    ctx.check(not np.array_equal(one[0], one[1]), 'two calls in a row give '
              'the same draw', call=name)
    ctx.sig('draws', name)


@C31.case(quick=24)
def concurrent(ctx):
    """Calls from several threads give what they give one after another."""
    names = [ctx.pick(tuple(CALLS)) for _ in range(4)]
    if ctx.index % 2:               # all in the same function
        names = [tuple(CALLS)[(ctx.index*7) % len(CALLS)]]*4
    jobs = []
    for i in range(4):
        jobs.append([(n, *build(ctx, n)) for n in ctx.rng.permutation(names)])
    want = [[copy.deepcopy(run(n, f, a)) for n, f, a in job] for job in jobs]
    got = [[None]*len(job) for job in jobs]
    errors, rounds = [], 3
    gate = threading.Barrier(len(jobs))
    live, overlap = [0], [0]

    def work(i):
        try:
            gate.wait(20)
            for _ in range(rounds):
                for j, (n, f, a) in enumerate(jobs[i]):
                    live[0] += 1
                    overlap[0] = max(overlap[0], live[0])
                    got[i][j] = run(n, f, a)
                    live[0] -= 1
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True)
                   for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if errors:
        ctx.check(False, 'a call fails when others run at the same time',
                  error=repr(errors[0])[:300], calls=names)
    ctx.check(not any(t.is_alive() for t in threads), 'concurrent calls end')
    for i, job in enumerate(jobs):
        for j, (n, _, _) in enumerate(job):
            agree(ctx, got[i][j], want[i][j], 'the result depends on '
                  'concurrent calls', call=n)
    ctx.event('concurrent calls', sum(map(len, jobs))*rounds)
    ctx.event('rounds with overlap', overlap[0] > 1)
    ctx.sig('concurrent', sorted(set(names)))
PROPS = {'C31': C31}
