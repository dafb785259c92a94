"""C01-C09: M-estimators of covariance and shape."""
import numpy as np
from scipy.special import gammaln
from scipy.stats import chi2

from .. import gen
from ..core import Prop
from ..lib import (TYLER, STUDENT, HUBER, EMPIRICAL, TYLER_FP, TYLER_NG,
                   STUDENT_FP, HUBER_FP, NORMS, TYLER_COST, cov, log_records,
                   base, structured)

CPLX = (False, True)
DOMAIN = ('data in general position with n >= 5p+5 samples (or as stated), '
          'moderately conditioned true scatter; "converged" means the '
          'estimator stopped on tol within the given budget')


def dims(ctx, pmax=8, pmin=1, ratio=(5, 20)):
    p = ctx.integers(pmin, pmax if not ctx.thorough else 2*pmax)
    n = p*ctx.integers(*ratio) + ctx.integers(5, 12)
    return p, n


def tyler_map(X, S):
    n, p = X.shape
    w = p/gen.quad(X, S)
    return (X.T*w)@X.conj()/n


def student_map(X, S, df, cplx):
    n, p = X.shape
    q = gen.quad(X, S)
    w = (df/2+p)/(df/2+q) if cplx else (df+p)/(df+q)
    return (X.T*w)@X.conj()/n


def huber_constants(q, p, cplx):
    """Threshold: q-quantile of the quadratic form for Gaussian data;
    beta: E[min(d, a)]/p with d the quadratic form, by numerical
    integration so that no closed form is shared with the library."""
    if q >= 1:
        return np.inf, 1.
    u = (np.arange(200000)+.5)/200000
    d = chi2.ppf(u, 2*p)/2 if cplx else chi2.ppf(u, p)
    a = chi2.ppf(q, 2*p)/2 if cplx else chi2.ppf(q, p)
    return a, np.mean(np.minimum(d, a))/p


def huber_map(X, S, q, cplx, const=None):
    n, p = X.shape
    a, b = huber_constants(q, p, cplx) if const is None else const
    d = gen.quad(X, S)
    w = np.minimum(1., a/d)/b
    return (X.T*w)@X.conj()/n


def solve_fixed_point(F, S, iters=20000, tol=1e-13, normalise=False):
    """Reference solution by plain iteration of an independent map."""
    for _ in range(iters):
        T = gen.herm_part(F(S))
        if normalise:
            T = T/(np.real(np.trace(T))/len(T))
        d = np.linalg.norm(T-S)/np.linalg.norm(S)
        S = T
        if d < tol:
            return S
    return None


def scm(X):
    return X.T@X.conj()/len(X)


def check_hpd(ctx, S, p, cplx, what='estimate', tol=1e-8):
    ctx.check(isinstance(S, np.ndarray) and S.shape == (p, p),
              f'{what} has the wrong shape', got=getattr(S, 'shape', None))
    ctx.check(np.iscomplexobj(S) == cplx, f'{what} has the wrong type',
              dtype=str(S.dtype))
    ctx.check(np.all(np.isfinite(S)), f'{what} is not finite')
    ctx.close(S, S.conj().T, tol, f'{what} is not Hermitian')
    ctx.check(np.linalg.eigvalsh(gen.herm_part(S))[0] > 0,
              f'{what} is not positive definite')


def not_slower(ctx, X, init, iterations, what, tol=1e-10):
    """No slower than the plain iteration of Tyler's equation."""
    T, k = scm(X) if init is None else init, 0
    for k in range(1, 5001):
        U = tyler_map(X, T)
        d, T = np.linalg.norm(U-T)/np.linalg.norm(T), U
        if d <= tol:
            break
    ctx.check(iterations <= 1.2*k+10, 'more iterations than the fixed-point '
              'iteration takes', what=what, iterations=iterations, plain=k)


def random_init(ctx, p, cplx):
    kind = ctx.pick(['none', 'identity', 'spd', 'scaled'])
    if kind == 'none':
        return None
    if kind == 'identity':
        return array_like(ctx, np.eye(p, dtype=complex if cplx else float))
    return array_like(ctx, gen.spd(
        ctx.rng, p, cplx, 30.,
        1. if kind == 'spd' else 10.**ctx.integers(-4, 4)))


def array_like(ctx, a):
    """The same matrix as another kind of array: nested sequences, another
    memory layout, real numbers or integers where they are enough."""
    kind = ctx.pick(('array', 'array', 'fortran', 'list', 'tuples', 'least'))
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'list':
        return a.tolist()
    if kind == 'tuples':
        return tuple(map(tuple, a))
    if kind == 'least' and not np.any(np.imag(a)):
        a = np.real(a)
        return a.astype(int) if np.all(a == np.round(a)) else a
    return a


REGIMES = ('few', 'large n', 'very large n', 'large p', 'repeated',
           'near zero', 'zeros', 'ties')


def regime_data(ctx, kind, cplx, law='gauss', null=False):
    """Data sets away from the ordinary sizes.  `null` allows samples which
    are exactly zero (where the estimator is defined for them)."""
    big = ctx.thorough
    p, n = dims(ctx, 6, 2)
    if kind == 'few':
        n = p + ctx.integers(2, 5) + (p if not null else 0)
    elif kind == 'large n':
        p = ctx.integers(1, 5)
        n = ctx.integers(190, 1300)
    elif kind == 'very large n':
        p = ctx.integers(1, 3)
        n = ctx.integers(2000, 9000 if not big else 70000)
    elif kind == 'large p':
        p = ctx.integers(9, 33 if not big else 90)
        if ctx.integers(0, 5) == 3:
            p = ctx.integers(55, 100)
        n = 4*p + ctx.integers(10, 200)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    if kind == 'repeated':
        X = np.repeat(X, ctx.rng.randint(1, 30, n), axis=0)
        X = ctx.rng.permutation(X)
    elif kind == 'near zero':
        X[ctx.rng.rand(n) < .15] *= 10.**ctx.integers(-11, -3)
    elif kind == 'zeros' and null:
        X[ctx.rng.rand(n) < .1] = 0
    elif kind == 'ties':
        Y = np.round(4*X/np.median(np.abs(X)))
        X = np.where(np.any(Y != 0, axis=1)[:, None], Y, X)
    return X


def number(ctx, x):
    """The same number in another type."""
    if x == int(x):
        kinds = (float, int, np.int64, np.float64)
    else:
        kinds = (float, np.float64)
    return ctx.pick(kinds)(x)


# ===========================================================================
C01 = Prop('C01', 'random data sets (8 laws x dims x real/complex x init x '
           'normalisation x interface); non-trivial = p>=2 and the estimate '
           'differs from the identity and from the sample covariance',
           [DOMAIN], scale=30)


def nontrivial(ctx, S, X, *parts):
    p = X.shape[1]
    if p >= 2 and np.linalg.norm(gen.shape_of(S)-np.eye(p)) > 1e-6:
        ctx.sig(X.shape, complex(np.round(S[0, 1], 12)), *parts)


@C01.case(quick=260)
def equation(ctx):
    cplx, law, iface, norm = ctx.cyc(CPLX, gen.LAWS, ('class', 'function'),
                                     NORMS)
    p, n = dims(ctx)
    X = gen.samples(ctx.rng, n, p, cplx, law, ctx.pick([1., 20., 300.]))
    init = random_init(ctx, p, cplx)
    tol = ctx.pick([1e-9, 1e-10])
    if iface == 'class':
        e = TYLER[cplx](tol=tol, iter_max=4000, normalisation=norm)
        e.fit(X, init=init)
        S, err = e.covariance_, e.err_
    else:
        S, err, it = TYLER_FP[cplx](X, init=init, tol=tol, iter_max=4000,
                                    normalisation=norm)
    ctx.check(err <= tol, 'no convergence in 4000 iterations', err=err)
    check_hpd(ctx, S, p, cplx)
    F = tyler_map(X, S)
    F = F/(np.real(np.trace(np.linalg.solve(S, F)))/p)
    ctx.small(gen.whitened_error(S, F), 1e-6,
              'estimate does not solve the Tyler equation', law=law,
              p=p, n=n, cplx=cplx)
    nontrivial(ctx, S, X, law, iface, norm)
    ctx.event('fits judged by the equation')
    ctx.sample(law=law, p=p, n=n, cplx=cplx, norm=norm, interface=iface,
               estimate=S)


@C01.case(quick=60)
def unique_reference(ctx):
    """Same solution as an independent solver, whatever the start."""
    cplx, law = ctx.cyc(CPLX, gen.LAWS)
    p, n = dims(ctx, 6, 2)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    ref = solve_fixed_point(lambda S: tyler_map(X, S),
                            np.eye(p, dtype=X.dtype), normalise=True)
    if ref is None:
        ctx.skip('reference did not converge')
    for _ in range(3):
        init = random_init(ctx, p, cplx)
        e = TYLER[cplx](tol=1e-10, iter_max=4000, normalisation='trace')
        e.fit(X, init=init)
        ctx.small(gen.whitened_error(ref, gen.shape_of(e.covariance_)), 1e-6,
                  'solution depends on the initial point')
        ctx.event('starts compared')
    nontrivial(ctx, e.covariance_, X, law)


@C01.case(quick=24)
def types_and_layout(ctx):
    cplx, kind = ctx.cyc(CPLX, ('fortran', 'strided', 'reversed', 'single',
                                'integer', 'list', 'transposed', 'memory'))
    p, n = dims(ctx, 6, 2)
    X = gen.samples(ctx.rng, n, p, cplx, 'discrete' if kind == 'integer'
                    else 'gauss')
    tol = 1e-6
    if kind == 'integer':
        X = np.round(20*X)
        X = X + (np.abs(X).sum(1) == 0)[:, None]
        Y = X if cplx else X.astype(int)
    elif kind == 'fortran':
        Y = np.asfortranarray(X)
    elif kind == 'strided':
        Y = np.repeat(np.repeat(X, 2, 0), 3, 1)[::2, ::3]
    elif kind == 'reversed':
        Y = np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    elif kind == 'single':
        Y = X.astype(np.complex64 if cplx else np.float32)
        X = Y.astype(complex if cplx else float)
        tol = 3e-3
    elif kind == 'list':
        Y = X if cplx else X.tolist()
    elif kind == 'transposed':
        Y = np.ascontiguousarray(X.T).T
    else:
        Y = np.frombuffer(X.tobytes(), dtype=X.dtype).reshape(X.shape)
    t = 1e-9 if kind != 'single' else 1e-5
    S = TYLER[cplx](tol=t, iter_max=3000, normalisation='trace').fit(
        Y).covariance_
    check_hpd(ctx, S, p, cplx, tol=1e-8 if kind != 'single' else 1e-5)
    ctx.small(gen.whitened_error(S, tyler_map(X, S)*p/np.real(np.trace(
        np.linalg.solve(S, tyler_map(X, S))))), tol,
        'equation fails for this memory layout or type', kind=kind)
    nontrivial(ctx, S, X, kind)


@C01.case(quick=40)
def complex_extends_real(ctx):
    p, n = dims(ctx, 7)
    law = ctx.cyc(gen.LAWS)
    X = gen.samples(ctx.rng, n, p, False, law)
    kw = dict(tol=1e-10, iter_max=4000, normalisation=ctx.pick(
        ['trace', 'element', 'determinant']))
    R = TYLER[False](**kw).fit(X).covariance_
    C = TYLER[True](**kw).fit(X.astype(complex)).covariance_
    ctx.close(C, R, 1e-6, 'complex estimator differs from the real one on '
              'real data', law=law)
    # the complex estimate is blind to one phase per sample
    ph = np.exp(2j*np.pi*ctx.rng.rand(n))[:, None]
    C = TYLER[True](**kw).fit(X*ph).covariance_
    ctx.close(C, R, 1e-6, 'phases of the samples change the estimate',
              law=law)
    nontrivial(ctx, R, X, law)


@C01.case(quick=8, thorough=40)
def larger(ctx):
    cplx = ctx.cyc(CPLX)
    p = ctx.integers(25, 45)
    if ctx.index % 6 == 5:
        p = ctx.integers(60, 160)
    X = gen.samples(ctx.rng, 6*p, p, cplx, ctx.pick(['t', 'scaled']))
    e = TYLER[cplx](tol=1e-9, iter_max=3000).fit(X)
    ctx.check(e.err_ <= 1e-9, 'no convergence in 3000 iterations', p=p,
              err=e.err_)
    F = tyler_map(X, e.covariance_)
    check_hpd(ctx, e.covariance_, p, cplx)
    ctx.small(gen.whitened_error(e.covariance_, F), 1e-5,
              'estimate does not solve the Tyler equation', p=p)
    nontrivial(ctx, e.covariance_, X)


@C01.case(quick=32)
def few_samples(ctx):
    """n barely above p: slow but existing solution."""
    cplx, law = ctx.cyc(CPLX, ('gauss', 't', 'scaled', 'skew'))
    p = ctx.integers(2, 5)
    n = p + ctx.integers(2, 4)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    e = TYLER[cplx](tol=1e-11, iter_max=30000).fit(X)
    if e.err_ > 1e-11:
        ctx.skip('slow convergence close to the existence limit')
    check_hpd(ctx, e.covariance_, p, cplx)
    F = tyler_map(X, e.covariance_)
    ctx.small(gen.whitened_error(e.covariance_, F), 1e-5,
              'estimate does not solve the Tyler equation', p=p, n=n)
    nontrivial(ctx, e.covariance_, X, law)


@C01.case(quick=48)
def magnitudes(ctx):
    """Tiny and huge samples side by side: the equation is blind to them."""
    cplx, how, law = ctx.cyc(CPLX, ('two groups', 'spread', 'unit'),
                             ('gauss', 't', 'skew'))
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    init = np.eye(p, dtype=X.dtype)
    if how == 'two groups':
        # the small group has another shape than the large one
        k = ctx.integers(p+3, n-p-3)
        X[:k] = X[:k]@gen.invertible(ctx.rng, p, cplx, 10.).T
        X[:k] *= 10.**ctx.rng.uniform(-12, -4)
        init = ctx.pick([None, init])
    elif how == 'spread':
        X = X*10.**ctx.rng.uniform(-12, 12, n)[:, None]
    else:
        X = X*10.**ctx.rng.uniform(-40, 40)
        init = ctx.pick([None, init])
    e = TYLER[cplx](tol=1e-10, iter_max=5000, normalisation='trace')
    S = e.fit(ctx.rng.permutation(X), init=init).covariance_
    check_hpd(ctx, S, p, cplx)
    F = tyler_map(X, S)
    F = F/(np.real(np.trace(np.linalg.solve(S, F)))/p)
    ctx.small(gen.whitened_error(S, F), 1e-6,
              'estimate does not solve the Tyler equation', law=law,
              p=p, n=n, cplx=cplx, how=how)
    not_slower(ctx, X, np.eye(p, dtype=X.dtype) if init is not None
               else None, e.iteration_, how)
    nontrivial(ctx, S, X, law, how)


@C01.case(quick=32)
def regimes(ctx):
    """Sizes, multiplicities and magnitudes away from the ordinary ones."""
    kind, cplx, iface = ctx.cyc(REGIMES, CPLX, ('class', 'function'))
    law = ctx.pick(gen.LAWS)
    X = regime_data(ctx, kind, cplx, law)
    p, n = X.shape[1], len(X)
    init = random_init(ctx, p, cplx)
    if kind == 'near zero' or init is not None and ctx.pick([0, 1]):
        init = np.eye(p, dtype=X.dtype)*10.**ctx.integers(-9, 9)
    tol, budget = 1e-10, number(ctx, 20000)
    if iface == 'class':
        e = TYLER[cplx](tol=tol, iter_max=budget, normalisation=ctx.pick(
            NORMS), verbosity=ctx.pick([False, True])).fit(X, init=init)
        S, err, it = e.covariance_, e.err_, e.iteration_
    else:
        S, err, it = TYLER_FP[cplx](X, init=init, tol=tol, iter_max=budget)
    if kind in ('few', 'ties') and err > tol:
        ctx.skip('slow convergence close to the existence limit')
    ctx.check(err <= tol, 'no convergence in 20000 iterations', err=err)
    check_hpd(ctx, S, p, cplx)
    F = tyler_map(X, S)
    F = F/(np.real(np.trace(np.linalg.solve(S, F)))/p)
    ctx.small(gen.whitened_error(S, F), 1e-6 if kind != 'few' else 1e-5,
              'estimate does not solve the Tyler equation', kind=kind,
              p=p, n=n, cplx=cplx)
    if kind.startswith('large'):
        not_slower(ctx, X, init, it, kind)
    nontrivial(ctx, S, X, kind)


# ===========================================================================
C02 = Prop('C02', 'pairs of fits on related data sets; non-trivial = p>=2 '
           'and the transformation actually changes the data', [DOMAIN], scale=20)


def tyler_fit(ctx, X, cplx, method='fixed-point', init=None, **kw):
    if method == 'fixed-point':
        e = TYLER[cplx](tol=1e-10, iter_max=5000, normalisation='trace',
                        **kw)
    else:
        e = TYLER[cplx](method=method, normalisation='trace', **kw)
    return e.fit(X, init=init).covariance_


@C02.case(quick=96)
def per_sample_scale(ctx):
    cplx, law, how = ctx.cyc(CPLX, gen.LAWS, ('moderate', 'huge', 'sign'))
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    if how == 'sign':
        c = ctx.rng.choice([-1., 1.], n)
    elif how == 'moderate':
        c = ctx.rng.uniform(-5, 5, n)
        c = c + .1*np.sign(c)
    else:
        c = 10.**ctx.rng.uniform(-10, 10, n)*ctx.rng.choice([-1., 1.], n)
    if cplx:
        c = c*np.exp(2j*np.pi*ctx.rng.rand(n))
    a = tyler_fit(ctx, X, cplx)
    # from the identity, every iterate is blind to the scales
    eye = np.eye(p, dtype=X.dtype)
    k = ctx.integers(1, 6)
    few = [TYLER[cplx](tol=0., iter_max=k, normalisation='trace').fit(
        Y, init=eye).covariance_ for Y in (X, X*c[:, None])]
    ctx.small(gen.whitened_error(*few), 1e-7,
              'scaling single samples changed an iterate', how=how, k=k)
    # the sample covariance of hugely scaled data is a singular start
    init = None if how != 'huge' else np.eye(p, dtype=X.dtype)
    b = tyler_fit(ctx, X*c[:, None], cplx, init=init)
    ctx.small(gen.whitened_error(a, b), 1e-6,
              'scaling single samples changed the shape', how=how, law=law)
    if p >= 2:
        ctx.sig(how, law, cplx, p, n)
    ctx.event('pairs compared')
    ctx.sample(how=how, law=law, p=p, n=n, cplx=cplx,
               dynamic_range=float(np.abs(c).max()/np.abs(c).min()))


@C02.case(quick=64)
def affine(ctx):
    cplx, law = ctx.cyc(CPLX, gen.LAWS)
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    T = gen.invertible(ctx.rng, p, cplx, ctx.pick([2., 30.]))
    T = T*10.**ctx.rng.uniform(-5, 5)
    a = tyler_fit(ctx, X, cplx)
    b = tyler_fit(ctx, X@T.T, cplx)
    ctx.small(gen.whitened_error(gen.shape_of(T@a@T.conj().T), b), 1e-6,
              'estimate is not affine equivariant', law=law)
    if p >= 2:
        ctx.sig('affine', law, cplx, p, n)


@C02.case(quick=64)
def permutation_repetition_conjugation(ctx):
    cplx, law = ctx.cyc(CPLX, gen.LAWS)
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    a = tyler_fit(ctx, X, cplx)
    ctx.small(gen.whitened_error(a, tyler_fit(
        ctx, ctx.rng.permutation(X), cplx)), 1e-6, 'order matters')
    ctx.small(gen.whitened_error(a, tyler_fit(
        ctx, np.vstack([X, X[::-1], X]), cplx)), 1e-6,
        'repeating the data set matters')
    o = ctx.rng.permutation(p)
    ctx.small(gen.whitened_error(a[np.ix_(o, o)],
                                 tyler_fit(ctx, X[:, o], cplx)), 1e-6,
              'renaming the variables is not equivariant')
    if cplx:
        ctx.small(gen.whitened_error(a.conj(), tyler_fit(
            ctx, X.conj(), cplx)), 1e-6, 'conjugation is not equivariant')
    if p >= 2:
        ctx.sig('perm', law, cplx, p, n)


@C02.case(quick=32)
def natural_gradient(ctx):
    cplx, law = ctx.cyc(CPLX, ('gauss', 't', 'scaled', 'skew'))
    p = ctx.integers(2, 4)
    n = 10*p + 10
    X = gen.samples(ctx.rng, n, p, cplx, law, 5.)
    ng = 'natural gradient'
    eye = np.eye(p, dtype=X.dtype)
    a = tyler_fit(ctx, X, cplx, ng, init=eye)
    c = 10.**ctx.rng.uniform(-3, 3, n)
    if cplx:
        c = c*np.exp(2j*np.pi*ctx.rng.rand(n))
    b = tyler_fit(ctx, ctx.rng.permutation(X*c[:, None]), cplx, ng, init=eye)
    ctx.small(gen.whitened_error(a, b), 1e-3,
              'natural gradient: scaling samples changed the shape')
    T = gen.invertible(ctx.rng, p, cplx, 3.)
    d = tyler_fit(ctx, X@T.T, cplx, ng, init=eye)
    ctx.small(gen.whitened_error(gen.shape_of(T@a@T.conj().T), d), 1e-3,
              'natural gradient is not affine equivariant')
    if cplx:
        d = tyler_fit(ctx, X.conj(), cplx, ng, init=eye)
        ctx.small(gen.whitened_error(a.conj(), d), 1e-3,
                  'natural gradient: conjugation is not equivariant')
    ctx.sig('ng', law, cplx, p, n)


@C02.case(quick=24)
def regimes(ctx):
    kind, cplx = ctx.cyc(REGIMES, CPLX)
    if kind == 'few':
        ctx.skip('slow convergence')
    X = regime_data(ctx, kind, cplx, ctx.pick(('gauss', 't', 'skew')))
    n, p = X.shape
    init = np.eye(p, dtype=X.dtype)
    a = tyler_fit(ctx, X, cplx, init=init)
    T = gen.invertible(ctx.rng, p, cplx, 5.)
    c = 10.**ctx.rng.uniform(-8, 8, n)*ctx.rng.choice([-1., 1.], n)
    if cplx:
        c = c*np.exp(2j*np.pi*ctx.rng.rand(n))
    for what, Y, ref in (
            ('order', ctx.rng.permutation(X), a),
            ('repetition', np.repeat(X, 2, axis=0), a),
            ('scales of samples', X*c[:, None], a),
            ('linear map', X@T.T, gen.shape_of(T@a@T.conj().T))):
        b = tyler_fit(ctx, Y, cplx, init=init)
        ctx.small(gen.whitened_error(ref, b), 1e-6, f'{what}: the shape '
                  'does not follow', kind=kind, p=p, n=n, cplx=cplx)
        ctx.event('pairs compared')
    if p >= 2:
        ctx.sig(kind, cplx, p, n)


# ===========================================================================
C03 = Prop('C03', 'Student fits (laws x df x dims x real/complex x init), '
           'judged by stationarity, perturbations and the trace of '
           'likelihoods over iteration budgets; non-trivial = p>=2 or df '
           'away from the Gaussian limit', [DOMAIN], scale=20)

DFS = (.3, 1., 2.5, 5., 30., 300.)


def t_loglik(X, S, df, cplx):
    """Sum of log densities of the multivariate t (complex: the circular
    complex t equal to the real 2p-variate t of the real equivalents with
    half-covariance scatter)."""
    n, p = X.shape
    q = gen.quad(X, S)
    ld = np.linalg.slogdet(S)[1]
    if not cplx:
        c = gammaln((df+p)/2)-gammaln(df/2)-p/2*np.log(df*np.pi)-ld/2
        return n*c - (df+p)/2*np.sum(np.log1p(q/df))
    d = 2*p
    c = gammaln((df+d)/2)-gammaln(df/2)-p*np.log(df*np.pi)-ld+p*np.log(2)
    return n*c - (df+d)/2*np.sum(np.log1p(2*q/df))


@C03.case(quick=220)
def maximises_likelihood(ctx):
    cplx, law, df, iface = ctx.cyc(CPLX, gen.LAWS, DFS,
                                   ('class', 'function'))
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law, ctx.pick([1., 20., 200.]))
    X = X*10.**ctx.integers(-3, 3)
    init = random_init(ctx, p, cplx)
    if iface == 'class':
        e = STUDENT[cplx](df, tol=1e-10, iter_max=20000).fit(X, init=init)
        S, err = e.covariance_, e.err_
    else:
        S, err, _ = STUDENT_FP[cplx](X, df, init=init, tol=1e-10,
                                     iter_max=20000)
    ctx.check(err <= 1e-10, 'no convergence in 20000 iterations', df=df,
              law=law, err=err)
    check_hpd(ctx, S, p, cplx)
    ctx.small(gen.whitened_error(S, student_map(X, S, df, cplx)), 1e-6,
              'gradient of the t likelihood does not vanish', df=df, law=law,
              cplx=cplx, p=p)
    ll = t_loglik(X, S, df, cplx)
    r = gen.powm(gen.herm_part(S), .5)
    for eps in (1e-2, .3):
        for _ in range(3):
            H = gen.herm(ctx.rng, p, cplx)
            H = H/np.linalg.norm(H)
            P = r@gen.fun(eps*H, np.exp)@r
            ctx.check(t_loglik(X, P, df, cplx) <= ll + 1e-7*(1+abs(ll)),
                      'a perturbed matrix has a larger likelihood', df=df,
                      law=law)
    ctx.event('perturbations compared', 6)
    ctx.sig(law, df, cplx, p, n, iface)
    ctx.sample(law=law, df=df, p=p, n=n, cplx=cplx, loglik=ll, interface=iface)


@C03.case(quick=48)
def likelihood_never_decreases(ctx):
    cplx, df, law = ctx.cyc(CPLX, (.5, 3., 50.), gen.LAWS)
    p, n = dims(ctx, 5)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    init = random_init(ctx, p, cplx)
    last = -np.inf if init is None else t_loglik(X, init, df, cplx)
    for k in list(range(1, 13)) + [20, 50]:
        S = STUDENT[cplx](df, tol=1e-14, iter_max=k).fit(
            X, init=init).covariance_
        ll = t_loglik(X, S, df, cplx)
        ctx.check(ll >= last - 1e-8*(1+abs(last)),
                  'an iteration decreased the likelihood', k=k, before=last,
                  after=ll)
        last = ll
        ctx.event('iterates observed')
    ctx.sig(law, df, cplx, p, n)


@C03.case(quick=60)
def score_is_loglikelihood(ctx):
    cplx, df = ctx.cyc(CPLX, DFS)
    p, n = dims(ctx, 5)
    X = gen.samples(ctx.rng, n, p, cplx, 't')
    e = STUDENT[cplx](df, tol=1e-8, iter_max=5000).fit(X)
    for m in (1, 2, n):
        Y = gen.samples(ctx.rng, m, p, cplx, 't')
        s, ref = e.score(Y), t_loglik(Y, e.covariance_, df, cplx)
        ctx.small(abs(s-ref)/(1+abs(ref)), 1e-8,
                  'score is not the log-likelihood of the data', df=df, m=m,
                  p=p, cplx=cplx, score=s, expected=ref)
        ctx.event('scores compared')
    s0 = e.score(X)
    for _ in range(4):
        f = STUDENT[cplx](df)
        f.fit(X, init=None)
        f._set_covariance(e.covariance_ @ gen.fun(
            .05*np.diag(ctx.rng.randn(p)), np.exp))
    ctx.sig(df, cplx, p, n)
    ctx.check(np.isfinite(s0), 'score of the training data is not finite')


@C03.case(quick=24)
def large_df_limit(ctx):
    """As df grows the estimate tends to the sample covariance, and the
    complex model with 2 df equals the real one on real data."""
    p, n = dims(ctx, 5)
    cplx = ctx.cyc(CPLX)
    X = gen.samples(ctx.rng, n, p, cplx, 'gauss')
    S = STUDENT[cplx](1e9, tol=1e-12, iter_max=500).fit(X).covariance_
    ctx.close(S, scm(X), 1e-5, 'df -> infinity is not the sample covariance')
    X = gen.samples(ctx.rng, n, p, False, 't')
    df = ctx.pick(DFS)
    R = STUDENT[False](df, tol=1e-11, iter_max=20000).fit(X).covariance_
    C = STUDENT[True](2*df, tol=1e-11, iter_max=20000).fit(
        X.astype(complex)).covariance_
    ctx.close(C, R, 1e-6, 'complex (2 df) and real (df) estimates differ on '
              'real data', df=df)
    ctx.sig('limit', cplx, p, n, df)


@C03.case(quick=40)
def regimes(ctx):
    """Unusual sizes, samples at the centre, types and values of df."""
    kind, cplx, df, iface = ctx.cyc(
        REGIMES, CPLX, (1., 3., 5., 7., 2.5, .2, 700., 4000., 1e5),
        ('class', 'function'))
    df = number(ctx, df)
    X = regime_data(ctx, kind, cplx, ctx.pick(gen.LAWS), null=True)
    n, p = X.shape
    # a scatter exists when few samples lie at the centre
    size = np.linalg.norm(X, axis=1)
    h = np.mean(size < .01*np.median(size))
    if p > 50 and df < 20:      # thousands of slow iterations otherwise
        df = number(ctx, 20.)
    if kind in ('few', 'ties', 'zeros', 'near zero') and df*(1-h) < 4*p*h + 1:
        df = number(ctx, 1.+np.ceil(6*p*h))
    init = random_init(ctx, p, cplx)
    if iface == 'class':
        e = STUDENT[cplx](df, tol=1e-11, iter_max=number(ctx, 20000),
                          verbosity=ctx.pick([False, True])).fit(
                              X, init=init)
        S, err = e.covariance_, e.err_
        ref = t_loglik(X, S, float(df), cplx)
        ctx.small(abs(e.score(X)-ref)/(1+abs(ref)), 1e-8, 'score is not the '
                  'log-likelihood of the data', kind=kind, df=df)
    else:
        S, err, _ = STUDENT_FP[cplx](X, df, init=init, tol=1e-11,
                                     iter_max=number(ctx, 20000))
    if kind in ('few', 'ties', 'near zero') and err > 1e-11:
        ctx.skip('slow convergence close to the existence limit')
    ctx.check(err <= 1e-11, 'no convergence in 20000 iterations', df=df,
              kind=kind, err=err)
    check_hpd(ctx, S, p, cplx)
    ctx.small(gen.whitened_error(S, student_map(X, S, float(df), cplx)),
              1e-6 if kind not in ('few', 'ties') else 1e-4,
              'gradient of the t likelihood does not vanish', df=df,
              type=type(df).__name__, kind=kind, cplx=cplx, p=p, n=n)
    ctx.sig(kind, df, cplx, p, n, iface)


# ===========================================================================
C04 = Prop('C04', 'Huber fits (laws x q x dims x real/complex x init) judged '
           'by the documented equation with independently computed constants;'
           ' non-trivial = some samples are below and some above the '
           'threshold', [DOMAIN], scale=4)
QS = (.2, .5, .75, .9, .99, 1.)


@C04.case(quick=240)
def huber_equation(ctx):
    cplx, law, q, iface = ctx.cyc(CPLX, gen.LAWS, QS+(.9995, .03, .015),
                                  ('class', 'function'))
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)*10.**ctx.integers(-3, 3)
    init = random_init(ctx, p, cplx)
    if iface == 'class':
        e = HUBER[cplx](q, tol=1e-10, iter_max=20000).fit(X, init=init)
        S, err = e.covariance_, e.err_
    else:
        S, err, _ = HUBER_FP[cplx](X, q, init=init, tol=1e-10,
                                   iter_max=20000)
    check_hpd(ctx, S, p, cplx)
    if q < .1 and err > 1e-10 and (law == 'discrete' or err < 1e-4):
        return      # too many samples next to zero for a solution
    ctx.check(err <= 1e-10, 'no convergence in 20000 iterations', q=q,
              law=law, err=err)
    const = huber_constants(q, p, cplx)
    if q >= 1:
        ctx.close(S, scm(X), 1e-8, 'q=1 is not the sample covariance')
    ctx.small(gen.whitened_error(S, huber_map(X, S, q, cplx, const)), 5e-5,
              'estimate does not solve the Huber equation', q=q, law=law,
              p=p, cplx=cplx)
    above = np.mean(gen.quad(X, S) > const[0])
    ctx.event('samples down-weighted', n*above)
    ctx.event('samples kept', n*(1-above))
    if 0 < above < 1:
        ctx.sig(law, q, cplx, p, n, iface)
    ctx.sample(law=law, q=q, p=p, n=n, cplx=cplx, above=float(above))


@C04.case(quick=24, thorough=120)
def gaussian_consistency(ctx):
    cplx, q = ctx.cyc(CPLX, QS)
    p = ctx.integers(1, 5)
    n = 8000 if not ctx.thorough else 40000
    M = gen.spd(ctx.rng, p, cplx, 20., 10.**ctx.integers(-2, 2))
    X = gen.samples(ctx.rng, n, p, cplx, 'gauss', root=np.linalg.cholesky(M))
    S = HUBER[cplx](q, tol=1e-8, iter_max=5000).fit(X).covariance_
    ctx.small(gen.whitened_error(M, S), 14*np.sqrt((p+1)/n),
              'Huber estimate is not consistent for the Gaussian covariance',
              q=q, p=p, cplx=cplx)
    a = huber_constants(q, p, cplx)[0]
    frac = np.mean(gen.quad(X, M) <= a)
    ctx.check(abs(frac-q) < 8*np.sqrt(.25/n)+1e-9, 'oracle threshold wrong')
    ctx.sig('consistency', q, cplx, p)


@C04.case(quick=64)
def regimes(ctx):
    kind, cplx, q, iface = ctx.cyc(
        REGIMES, CPLX, (.1, .35, .6, .8, .97, .995, 1.),
        ('class', 'function'))
    X = regime_data(ctx, kind, cplx, ctx.pick(gen.LAWS))
    X = X*10.**ctx.integers(-3, 3)
    n, p = X.shape
    if kind in ('few', 'ties', 'near zero') and q < .6:
        q = .6
    q = number(ctx, q)
    init = random_init(ctx, p, cplx)
    if iface == 'class':
        e = HUBER[cplx](q, tol=1e-11, iter_max=number(ctx, 20000),
                        verbosity=ctx.pick([False, True])).fit(X, init=init)
        S, err = e.covariance_, e.err_
    else:
        S, err, _ = HUBER_FP[cplx](X, q, init=init, tol=1e-11,
                                   iter_max=number(ctx, 20000))
    if kind in ('few', 'ties', 'near zero') and err > 1e-11:
        ctx.skip('slow convergence close to the existence limit')
    ctx.check(err <= 1e-11, 'no convergence in 20000 iterations', q=q,
              kind=kind, err=err)
    check_hpd(ctx, S, p, cplx)
    const = huber_constants(q, p, cplx)
    ctx.small(gen.whitened_error(S, huber_map(X, S, q, cplx, const)), 1e-4,
              'estimate does not solve the Huber equation', q=q, kind=kind,
              p=p, n=n, cplx=cplx)
    above = np.mean(gen.quad(X, S) > const[0])
    if 0 < above < 1:
        ctx.sig(kind, q, cplx, p, n, iface)


@C04.case(quick=60)
def weight_function(ctx):
    f = cov._huber_m_estimator_function
    x = 10.**ctx.rng.uniform(-6, 6, ctx.integers(1, 30))
    a, b = 10.**ctx.rng.uniform(-3, 3, 2)
    u = f(x, a, b)
    ctx.check(np.shape(u) == x.shape, 'shape of the weights')
    ctx.close(u*b, np.where(x <= a, 1., a/x), 1e-12, 'Huber weights')
    ctx.check(np.all(u*x <= a/b*(1+1e-12)), 'influence is not bounded')
    for bad in ((0., 1.), (-a, b), (a, -b)):
        ctx.raises(Exception, lambda: f(x, *bad),
                   'invalid threshold or constant accepted', bad=bad)
    ctx.sig(len(x), a, b)


# ===========================================================================
C05 = Prop('C05', 'pairs of fits of Student, Huber and empirical estimators '
           'on related data; non-trivial = the transformation changes the '
           'data and p>=2 (or a phase/scale for p=1)', [DOMAIN], scale=20)

ESTIMATORS = ('student', 'huber', 'empirical', 'centred empirical')


def make(ctx, name, cplx):
    if name == 'student':
        df = ctx.pick((.7, 3., 20.))
        return (lambda: STUDENT[cplx](df, tol=1e-11, iter_max=20000)), df
    if name == 'huber':
        q = ctx.pick((.3, .8, .95))
        return (lambda: HUBER[cplx](q, tol=1e-11, iter_max=20000)), q
    if name == 'empirical':
        return (lambda: EMPIRICAL[cplx](assume_centered=True)), None
    return (lambda: EMPIRICAL[cplx](assume_centered=False)), None


@C05.case(quick=128)
def equivariance(ctx):
    cplx, name, law = ctx.cyc(CPLX, ESTIMATORS, gen.LAWS)
    p, n = dims(ctx, 6)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    new, par = make(ctx, name, cplx)
    a = new().fit(X).covariance_
    check_hpd(ctx, a, p, cplx)
    T = gen.invertible(ctx.rng, p, cplx, ctx.pick([2., 20.]))
    T = T*10.**ctx.rng.uniform(-4, 4)
    b = new().fit(X@T.T).covariance_
    ctx.small(gen.whitened_error(T@a@T.conj().T, b), 1e-6,
              'estimate is not affine equivariant', name=name, par=par,
              law=law)
    c = new().fit(ctx.rng.permutation(X)).covariance_
    ctx.small(gen.whitened_error(a, c), 1e-7, 'sample order matters',
              name=name)
    c = new().fit(np.vstack([X, X])).covariance_
    ctx.small(gen.whitened_error(a, c), 1e-7, 'repetition matters',
              name=name)
    o = ctx.rng.permutation(p)
    c = new().fit(X[:, o]).covariance_
    ctx.small(gen.whitened_error(a[np.ix_(o, o)], c), 1e-7,
              'renaming the variables is not equivariant', name=name)
    if name != 'centred empirical':
        s = ctx.rng.choice([-1., 1.], n)
        if cplx:
            s = s*np.exp(2j*np.pi*ctx.rng.rand(n))
        c = new().fit(X*s[:, None]).covariance_
        ctx.small(gen.whitened_error(a, c), 1e-7,
                  'signs or phases of samples matter', name=name)
    else:
        m = 3*gen.randn(ctx.rng, p, cplx)*np.sqrt(np.abs(np.diag(a)))
        c = new().fit(X + m).covariance_
        ctx.small(gen.whitened_error(a, c), 1e-6,
                  'a translation changes the centred covariance')
    if cplx:
        c = new().fit(X.conj()).covariance_
        ctx.small(gen.whitened_error(a.conj(), c), 1e-7,
                  'conjugation is not equivariant', name=name)
    ctx.event('transformations compared', 5)
    ctx.sig(name, par, law, cplx, p, n)
    ctx.sample(estimator=name, par=par, law=law, p=p, n=n, cplx=cplx)


@C05.case(quick=32)
def regimes(ctx):
    kind, cplx, name = ctx.cyc(REGIMES, CPLX, ESTIMATORS)
    X = regime_data(ctx, kind, cplx, ctx.pick(('gauss', 't', 'skew')))
    n, p = X.shape
    new, par = make(ctx, name, cplx)
    while p > 50 and name == 'student' and par < 12:
        new, par = make(ctx, name, cplx)    # slow convergence
    if kind == 'few' and name in ('student', 'huber'):
        ctx.skip('slow convergence')
    a = new().fit(X).covariance_
    T = gen.invertible(ctx.rng, p, cplx, 5.)*10.**ctx.rng.uniform(-4, 4)
    s = ctx.rng.choice([-1., 1.], n)
    pairs = [('linear map', X@T.T, T@a@T.conj().T),
             ('order', ctx.rng.permutation(X), a),
             ('repetition', np.repeat(X, 2, axis=0), a)]
    if name != 'centred empirical':
        pairs.append(('signs', X*s[:, None], a))
    else:
        m = 30*gen.randn(ctx.rng, p, cplx)*np.sqrt(np.abs(np.diag(a)))
        pairs.append(('translation', X+m, a))
    for what, Y, ref in pairs:
        ctx.small(gen.whitened_error(ref, new().fit(Y).covariance_), 1e-6,
                  f'{what}: the estimate does not follow', kind=kind,
                  name=name, par=par, p=p, n=n, cplx=cplx)
    ctx.sig(kind, name, par, cplx, p, n)


@C05.case(quick=24)
def complex_equals_real_equivalent(ctx):
    """Circularised real equivalents carry the complex estimate: the complex
    Student fit equals the real 2p-variate fit of [x, ix] pairs."""
    p, n = dims(ctx, 4)
    df = ctx.pick((.7, 3., 20.))
    X = gen.samples(ctx.rng, n, p, True, ctx.pick(gen.LAWS))
    Y = np.vstack([X, 1j*X])
    R = np.hstack([Y.real, Y.imag])
    c = STUDENT[True](df, tol=1e-11, iter_max=20000).fit(X).covariance_
    r = STUDENT[False](df, tol=1e-11, iter_max=20000).fit(R).covariance_
    block = .5*np.block([[c.real, -c.imag], [c.imag, c.real]])
    ctx.small(gen.whitened_error(block, r), 1e-6,
              'complex estimate differs from its real equivalent', df=df)
    ctx.sig('equiv', df, p, n)


# ===========================================================================
C06 = Prop('C06', 'clean / contaminated / over-contaminated triples of fits '
           'and large-sample fits against the truth; non-trivial = the '
           'contamination moves the sample covariance by more than 100x',
           [DOMAIN, 'fraction of outliers at most 0.35 of the breakdown point'
            ' min(1/K, 1-p/K) of the M-estimator, K = sup psi'], scale=8)


def robust_makers(ctx, cplx, p):
    """name -> (constructor, breakdown point)"""
    df, q = ctx.pick((1., 3., 10.)), ctx.pick((.5, .8, .95))
    a, b = huber_constants(q, p, cplx)
    Ks = df/2+p if cplx else df+p
    Kh = a/b
    return {
        'tyler': (lambda: TYLER[cplx](tol=1e-10, iter_max=20000,
                                      normalisation='trace'), 1/(p+1)),
        f'student {df}': (lambda: STUDENT[cplx](
            df, tol=1e-10, iter_max=20000), min(1/Ks, 1-p/Ks)),
        f'huber {q}': (lambda: HUBER[cplx](
            q, tol=1e-10, iter_max=20000), min(1/Kh, 1-p/Kh))}


@C06.case(quick=72)
def outliers(ctx):
    cplx, how = ctx.cyc(CPLX, ('one direction', 'random', 'axis', 'single'))
    p = ctx.integers(1, 5)
    n = 60*p + ctx.integers(20, 60)
    M = gen.spd(ctx.rng, p, cplx, 10.)
    X = gen.samples(ctx.rng, n, p, cplx, 'gauss',
                    root=np.linalg.cholesky(M))
    for name, (new, limit) in robust_makers(ctx, cplx, p).items():
        one_estimator(ctx, cplx, how, p, n, M, X, name, new, limit)


def one_estimator(ctx, cplx, how, p, n, M, X, name, new, limit):
    m = int(.35*limit*n) if how != 'single' else 1
    if m < 1 or m > .5*limit*n:
        ctx.event('breakdown point too low for one outlier')
        return
    if how in ('one direction', 'single'):
        d = np.tile(gen.randn(ctx.rng, (1, p), cplx), (m, 1))
        d = d + 1e-3*gen.randn(ctx.rng, (m, p), cplx)
    elif how == 'axis':
        d = np.zeros((m, p), dtype=X.dtype)
        d[:, ctx.integers(0, p-1)] = 1.
        d = d + 1e-3*gen.randn(ctx.rng, (m, p), cplx)
    else:
        d = gen.randn(ctx.rng, (m, p), cplx)
    d = d/np.linalg.norm(d, axis=1)[:, None]
    where = ctx.rng.choice(n, m, replace=False)
    clean = new().fit(X).covariance_
    res = []
    for mag in (1e4, 1e6):
        Y = X.copy()
        Y[where] = d*mag*np.sqrt(np.linalg.norm(M, 2))
        res.append(new().fit(Y).covariance_)
    ctx.check(np.linalg.norm(scm(Y)) > 100*np.linalg.norm(scm(X)),
              'workload does not contaminate')
    for S in res:
        check_hpd(ctx, S, p, cplx)
        w = gen.powm(gen.herm_part(clean), -.5)
        ev = np.linalg.eigvalsh(gen.herm_part(w@S@w))
        ctx.check(1/15 < ev[0] and ev[-1] < 15,
                  'outliers move the estimate without bound', name=name,
                  how=how, ratio=ev, p=p)
    ctx.small(gen.whitened_error(res[0], res[1]), 1e-3,
              'magnitude of far outliers still matters', name=name,
              how=how, p=p)
    ctx.event('outliers injected', 2*m)
    ctx.sig(name, how, cplx, p, n)
    ctx.sample(how=how, p=p, n=n, outliers=m, cplx=cplx)


@C06.case(quick=48, thorough=200)
def consistency(ctx):
    cplx, law = ctx.cyc(CPLX, ('gauss', 't1', 't4', 'gamma', 'lognormal',
                               'scaled'))
    p = ctx.integers(2, 4)
    n = 6000 if not ctx.thorough else 30000
    M = gen.shape_of(gen.spd(ctx.rng, p, cplx, 20.))
    root = np.linalg.cholesky(M)
    bound = 14*np.sqrt((p+2)/n)
    if law in ('t1', 't4'):
        df = float(law[1:])
        X = gen.samples(ctx.rng, n, p, cplx, 'gauss', root=root)
        X = X/np.sqrt(ctx.rng.chisquare(df, n)/df)[:, None]
        S = STUDENT[cplx](df, tol=1e-8, iter_max=5000).fit(X).covariance_
        ctx.small(gen.whitened_error(M, S), bound,
                  'Student estimate does not approach the scatter', df=df)
    else:
        X = gen.samples(ctx.rng, n, p, cplx, law, root=root)
    S = TYLER[cplx](tol=1e-9, iter_max=5000, normalisation='trace').fit(
        X).covariance_
    ctx.small(gen.whitened_error(M, S), bound,
              'Tyler estimate does not approach the shape', law=law)
    if law == 'gauss':
        q = ctx.pick((.5, .8, .95))
        S = HUBER[cplx](q, tol=1e-9, iter_max=5000).fit(X).covariance_
        ctx.small(gen.whitened_error(M, S), bound,
                  'Huber estimate does not approach the covariance', q=q)
    ctx.event('samples drawn', n)
    ctx.sig('consistency', law, cplx, p)


# ===========================================================================
C07 = Prop('C07', 'Tyler fits per normalisation, method, scale of the data; '
           'non-trivial = the unnormalised estimate violates the constraint',
           [DOMAIN], scale=30)


def constraint(norm, S):
    if norm == 'trace':
        return np.real(np.trace(S))/len(S)
    if norm == 'determinant':
        s, ld = np.linalg.slogdet(S)
        return np.exp(ld)
    if norm == 'element':
        return S[0, 0]
    return 1.


@C07.case(quick=160)
def fixed_point_constraints(ctx):
    cplx, law, norm, scale, iface = ctx.cyc(
        CPLX, gen.LAWS, NORMS[1:], ('unit', 'tiny', 'huge', 'init'),
        ('class', 'function'))
    p, n = dims(ctx, 8)
    X = gen.samples(ctx.rng, n, p, cplx, law)
    init = None
    if scale == 'tiny':
        X = X*10.**ctx.integers(-30, -5)
    elif scale == 'huge':
        X = X*10.**ctx.integers(5, 30)
    elif scale == 'init':
        init = random_init(ctx, p, cplx)
    tol = ctx.pick([1e-2, 1e-8])
    budget = ctx.pick([1, 3, 1000])

    def run(norm):
        if iface == 'class':
            return TYLER[cplx](tol=tol, iter_max=budget,
                               normalisation=norm).fit(
                                   X, init=init).covariance_
        return TYLER_FP[cplx](X, init=init, tol=tol, iter_max=budget,
                              normalisation=norm)[0]
    S = run(norm)
    U = run('None')
    check_hpd(ctx, S, p, cplx)
    ctx.small(abs(constraint(norm, S)-1), 1e-8,
              'normalisation constraint violated', norm=norm, scale=scale,
              p=p, value=constraint(norm, S))
    r = np.real(np.trace(S))/np.real(np.trace(U))
    ctx.check(r > 0, 'normalisation factor is not positive')
    ctx.close(S, r*U, 1e-9, 'normalisation did more than rescale',
              norm=norm)
    if abs(constraint(norm, U)-1) > 1e-6:
        ctx.sig(norm, law, scale, cplx, p, n, iface)
    ctx.sample(norm=norm, scale=scale, p=p, n=n, unnormalised=float(
        np.real(constraint(norm, U))))


@C07.case(quick=32)
def regimes(ctx):
    kind, cplx, norm = ctx.cyc(REGIMES, CPLX, NORMS[1:])
    X = regime_data(ctx, kind, cplx, ctx.pick(gen.LAWS))
    p = X.shape[1]
    init = random_init(ctx, p, cplx)
    kw = dict(tol=ctx.pick([1e-3, 1e-9]), iter_max=ctx.pick([2, 400]))
    e = TYLER[cplx](normalisation=norm, verbosity=ctx.pick([False, True]),
                    **kw)
    if ctx.pick([0, 1]):
        # parameters changed between two fits of one object
        e.set_params(normalisation=ctx.pick(NORMS)).fit(X[::-1])
        e.set_params(normalisation=norm)
    S = e.fit(X, init=init).covariance_
    U = TYLER[cplx](**kw).fit(X, init=init).covariance_
    ctx.small(abs(constraint(norm, S)-1), 1e-8,
              'normalisation constraint violated', norm=norm, kind=kind,
              p=p, value=constraint(norm, S))
    r = np.real(np.trace(S))/np.real(np.trace(U))
    ctx.check(r > 0, 'normalisation factor is not positive')
    ctx.close(S, r*U, 1e-9, 'normalisation did more than rescale', norm=norm)
    ctx.sig(norm, kind, cplx, p)


@C07.case(quick=30)
def large_dimension(ctx):
    """Dimensions at which the determinant itself over- or underflows."""
    cplx, norm, s = ctx.cyc(CPLX, NORMS[1:], (1e-14, 1., 1e14))
    p = ctx.integers(28, 40)
    X = gen.samples(ctx.rng, 3*p, p, cplx, 'gauss')*s
    S = TYLER[cplx](tol=1e-3, iter_max=8, normalisation=norm).fit(
        X).covariance_
    check_hpd(ctx, S, p, cplx)
    ctx.small(abs(constraint(norm, S)-1), 1e-7,
              'normalisation constraint violated', norm=norm, p=p, s=s)
    ctx.sig('large', norm, cplx, p, s)


@C07.case(quick=36)
def natural_gradient_constraints(ctx):
    cplx, norm, use_init = ctx.cyc(CPLX, NORMS[1:], (False, True))
    p = ctx.integers(2, 3)
    X = gen.samples(ctx.rng, 12*p, p, cplx, 't')*10.**ctx.integers(-6, 6)
    init = gen.spd(ctx.rng, p, cplx, 5.) if use_init else None
    S = TYLER[cplx](method='natural gradient', normalisation=norm).fit(
        X, init=init).covariance_
    check_hpd(ctx, S, p, cplx)
    ctx.small(abs(constraint(norm, S)-1), 1e-8,
              'normalisation constraint violated', norm=norm)
    ctx.sig('ng', norm, cplx, p, use_init)


@C07.case(quick=40)
def normalisation_functions(ctx):
    cplx, norm = ctx.cyc(CPLX, NORMS + ('nonsense', ''))
    p = ctx.integers(1, 8)
    S = gen.spd(ctx.rng, p, cplx, 50., 10.**ctx.integers(-3, 3))
    with log_records() as rec:
        f = cov.get_normalisation_function(norm)
    ref = {'trace': np.real(np.trace(S))/p,
           'determinant': np.exp(np.linalg.slogdet(S)[1]/p),
           'element': S[0, 0]}.get(norm, 1.)
    ctx.small(abs(f(S)-ref)/abs(ref), 1e-10, 'normalisation factor',
              norm=norm)
    # homogeneous of degree one, so that the constraint can be met
    if norm in NORMS[1:]:
        ctx.small(abs(f(3.5*S)/f(S)-3.5), 1e-9, 'factor not homogeneous')
        ctx.small(abs(f(S/f(S))-1), 1e-9, 'factor of the normalised matrix')
    if norm not in NORMS:
        ctx.check(any(r.levelname in ('ERROR', 'CRITICAL') for r in rec),
                  'unknown normalisation not reported', norm=norm)
        X = gen.samples(ctx.rng, 6*p+6, p, cplx)
        kw = dict(tol=1e-6, iter_max=300)
        a = TYLER[cplx](normalisation=norm, **kw).fit(X).covariance_
        b = TYLER[cplx](normalisation='None', **kw).fit(X).covariance_
        ctx.close(a, b, 1e-10, 'unknown normalisation is not None')
    else:
        ctx.check(not any(r.levelname in ('ERROR', 'CRITICAL') for r in rec),
                  'known normalisation reported as unknown', norm=norm)
    ctx.sig(norm, cplx, p, S[0, 0])


# ===========================================================================
C08 = Prop('C08', 'pairs of fits by both methods; non-trivial = p>=2 and the '
           'shape is away from the identity', [DOMAIN], scale=40)


@C08.case(quick=72, timeout=300)
def methods_agree(ctx):
    cplx, law, norm, start = ctx.cyc(
        CPLX, gen.LAWS, NORMS, ('default', 'spd', 'identity'))
    p = ctx.integers(2, 4 if not ctx.thorough else 6)
    n = ctx.integers(8, 15)*p + 10
    X = gen.samples(ctx.rng, n, p, cplx, law, 8.)
    init = {'default': None, 'spd': gen.spd(ctx.rng, p, cplx, 5.),
            'identity': np.eye(p, dtype=X.dtype)}[start]
    g = TYLER[cplx](method='natural gradient', normalisation=norm)
    g.fit(X, init=array_like(ctx, init) if start != 'default' else None)
    check_hpd(ctx, g.covariance_, p, cplx)
    f = TYLER[cplx](tol=1e-10, iter_max=4000).fit(X)
    a, b = gen.shape_of(f.covariance_), gen.shape_of(g.covariance_)
    ctx.small(gen.whitened_error(a, b), 1e-4,
              'natural gradient and fixed point disagree', law=law,
              norm=norm, start=start, cplx=cplx)
    if np.linalg.norm(a-np.eye(p)) > 1e-3:
        ctx.sig(law, norm, start, cplx, p, n)
    ctx.event('pairs of methods compared')
    ctx.sample(law=law, norm=norm, start=start, p=p, n=n, cplx=cplx)


@C08.case(quick=24, timeout=300)
def functions_and_value(ctx):
    cplx, norm = ctx.cyc(CPLX, NORMS)
    p = ctx.integers(2, 4)
    X = gen.samples(ctx.rng, 12*p, p, cplx, ctx.pick(gen.LAWS), 8.)
    init = gen.spd(ctx.rng, p, cplx, 4.)
    S, value, it = TYLER_NG[cplx](X, init=init, normalisation=norm)
    check_hpd(ctx, S, p, cplx)
    F = tyler_map(X, S)
    F = F/(np.real(np.trace(np.linalg.solve(S, F)))/p)
    ctx.small(gen.whitened_error(S, F), 1e-4,
              'natural gradient does not solve the equation', norm=norm)
    Y = X/np.linalg.norm(X, axis=1)[:, None]
    c = p*np.sum(np.log(gen.quad(Y, S))) + len(Y)*np.linalg.slogdet(S)[1]
    if not cplx:
        ctx.small(abs(value+c)/(1+abs(c)), 1e-7,
                  'reported value is not minus the cost at the solution',
                  value=value, cost=c)
    else:
        # criterion of the real equivalent problem: an increasing affine
        # function of the complex one
        ctx.check(np.isfinite(value), 'reported value is not finite')
    # no perturbation does better
    r = gen.powm(gen.herm_part(S), .5)
    for _ in range(4):
        H = gen.herm(ctx.rng, p, cplx)
        P = r@gen.fun(.1*H/np.linalg.norm(H), np.exp)@r
        cp = p*np.sum(np.log(gen.quad(Y, P))) + len(Y)*np.linalg.slogdet(
            P)[1]
        ctx.check(cp >= c - 1e-5*(1+abs(c)), 'solution is not a minimum')
    ctx.sig(norm, cplx, p)


@C08.case(quick=48, timeout=300)
def units_and_few_samples(ctx):
    """Neither the unit of the data, nor a small sample, nor badly scaled
    variables separate the two methods."""
    cplx, how, start = ctx.cyc(
        CPLX, ('unit', 'scaled samples', 'few', 'variables'),
        ('default', 'spd', 'identity'))
    p = ctx.integers(2, 4)
    n = 10*p + 10 if how != 'few' else \
        ctx.integers(2, 3)*p + ctx.integers(1, 4)
    X = gen.samples(ctx.rng, n, p, cplx, 'gauss', 8.)
    Y = X.copy()
    if how == 'unit':
        Y = X*10.**ctx.rng.uniform(-13, 13)
    elif how == 'scaled samples':
        Y = X*10.**ctx.rng.uniform(-9, 9, n)[:, None]
        start = 'spd' if start == 'default' else start
    elif how == 'variables':
        X = Y = X*10.**ctx.rng.permutation(np.linspace(-.7, .7, p))
    init = {'default': None, 'spd': gen.spd(ctx.rng, p, cplx, 5.),
            'identity': np.eye(p, dtype=X.dtype)}[start]
    S, value, _ = TYLER_NG[cplx](Y, init=array_like(ctx, init)
                                 if start != 'default' else None)
    f = TYLER[cplx](tol=1e-10, iter_max=4000).fit(X)
    a, b = gen.shape_of(f.covariance_), gen.shape_of(S)
    ctx.small(gen.whitened_error(a, b), 1e-4,
              'natural gradient and fixed point disagree', how=how,
              start=start, cplx=cplx, p=p, n=n)
    Z = X/np.linalg.norm(X, axis=1)[:, None]
    c = p*np.sum(np.log(gen.quad(Z, S))) + n*np.linalg.slogdet(S)[1]
    if not cplx:
        ctx.small(abs(value+c)/(1+abs(c)), 1e-7,
                  'reported value is not minus the cost at the solution',
                  value=value, cost=c, how=how)
    if np.linalg.norm(a-np.eye(p)) > 1e-3:
        ctx.sig(how, start, cplx, p, n, value)
    ctx.event('pairs of methods compared')


@C08.case(quick=20, timeout=300)
def regimes(ctx):
    """Many samples, repeated samples, initial points of any scale, and one
    object used with both methods in turn."""
    kind, cplx, norm = ctx.cyc(
        ('large n', 'repeated', 'scaled init', 'ties', 'switch'), CPLX,
        NORMS)
    p = ctx.integers(2, 4)
    n = 10*p + 10 if kind != 'large n' else ctx.integers(210, 700)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(
        ('gauss', 'skew', 't') if kind != 'ties' else ('discrete',)), 8.)
    if kind == 'repeated':
        X = np.repeat(X, ctx.rng.randint(1, 12, n), axis=0)
        n = len(X)
    elif kind == 'ties':
        X = np.round(X)+.5
    init = gen.spd(ctx.rng, p, cplx, 4.)
    if kind == 'scaled init':
        init = init*10.**ctx.integers(-9, 9)
    init = array_like(ctx, init)
    kw = dict(tol=1e-10, iter_max=4000)
    f = TYLER[cplx](normalisation=norm, **kw).fit(X)
    if kind == 'switch':
        g = f
        a = f.covariance_.copy()
        g.set_params(method='natural gradient').fit(X, init=init)
    else:
        a = f.covariance_
        g = TYLER[cplx](method='natural gradient', normalisation=norm)
        g.fit(X, init=init)
    S, value = g.covariance_, g.err_
    check_hpd(ctx, S, p, cplx)
    a, b = gen.shape_of(a), gen.shape_of(S)
    ctx.small(gen.whitened_error(a, b), 1e-4,
              'natural gradient and fixed point disagree', kind=kind,
              norm=norm, cplx=cplx, p=p, n=n)
    Z = X/np.linalg.norm(X, axis=1)[:, None]
    c = p*np.sum(np.log(gen.quad(Z, S))) + n*np.linalg.slogdet(S)[1]
    if not cplx:
        ctx.small(abs(value+c)/(1+abs(c)), 1e-9,
                  'reported value is not minus the cost at the solution',
                  value=value, cost=c, kind=kind)
    if kind == 'switch':
        g.set_params(method='fixed-point', **kw).fit(X)
        ctx.small(gen.whitened_error(a, gen.shape_of(g.covariance_)), 1e-6,
                  'back to the fixed point')
        ctx.check(isinstance(g.iteration_, (int, np.integer)) and
                  g.iteration_ >= 1, 'iterations of the fixed point',
                  it=g.iteration_)
    if np.linalg.norm(a-np.eye(p)) > 1e-3:
        ctx.sig(kind, norm, cplx, p, n)
    ctx.event('pairs of methods compared')


# ===========================================================================
C09 = Prop('C09', 'traces of iterates reconstructed from runs with budgets '
           '1..K; non-trivial = the run takes at least 3 iterations',
           [DOMAIN], scale=20)


def runner(ctx, kind, cplx, X, p):
    """run(tol, iter_max, init) -> (estimate, err, iterations)"""
    if kind == 'tyler':
        return lambda tol, k, init: TYLER_FP[cplx](
            X, init=init, tol=tol, iter_max=k)
    if kind == 'student':
        df = ctx.pick((.8, 4., 30.) if p < 50 else (10., 30.))
        return lambda tol, k, init: STUDENT_FP[cplx](
            X, df, init=init, tol=tol, iter_max=k)
    if kind == 'huber':
        q = ctx.pick((.4, .9))
        return lambda tol, k, init: HUBER_FP[cplx](
            X, q, init=init, tol=tol, iter_max=k)
    if kind == 'tyler class':
        def run(tol, k, init):
            e = TYLER[cplx](tol=tol, iter_max=k).fit(X, init=init)
            return e.covariance_, e.err_, e.iteration_
    elif kind == 'student class':
        df = ctx.pick((.8, 4., 30.) if p < 50 else (10., 30.))

        def run(tol, k, init):
            e = STUDENT[cplx](df, tol=tol, iter_max=k).fit(X, init=init)
            return e.covariance_, e.err_, e.iteration_
    else:
        q = ctx.pick((.4, .9))

        def run(tol, k, init):
            e = HUBER[cplx](q, tol=tol, iter_max=k).fit(X, init=init)
            return e.covariance_, e.err_, e.iteration_
    return run


def observed(run, tol, k, init):
    with log_records() as rec:
        S, err, it = run(tol, k, init)
    warned = any(r.levelname in ('WARNING', 'ERROR') or
                 'converge' in r.getMessage() for r in rec)
    return S, err, it, warned


KINDS = ('tyler', 'student', 'huber', 'tyler class', 'student class',
         'huber class')


@C09.case(quick=120)
def trace(ctx):
    cplx, kind = ctx.cyc(CPLX, KINDS)
    p, n = dims(ctx, 5)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(gen.LAWS))
    init = random_init(ctx, p, cplx)
    run = runner(ctx, kind, cplx, X, p)
    tol = 10.**ctx.rng.uniform(-7, -1)
    full, err, it, warned = observed(run, tol, 2000, init)
    ctx.check(isinstance(it, (int, np.integer)) and 1 <= it <= 2000,
              'number of iterations', it=it)
    ctx.check(err <= tol or it == 2000, 'stopped early without converging',
              err=err, tol=tol, it=it)
    if it < 2000:
        ctx.check(not warned, 'converged run reported as not converged',
                  it=it)
    K = min(it, 12)
    seq, errs = [], []
    for k in range(1, K+1):
        S, e, i, w = observed(run, tol, k, init)
        ctx.check(i == k, 'budget of k does not give k iterations', k=k, i=i)
        if e > tol:
            ctx.check(w, 'budget exhausted without any report', k=k, err=e)
        if k < it:
            ctx.check(e > tol, 'continued although converged', k=k, err=e,
                      tol=tol)
        seq.append(S)
        errs.append(e)
        ctx.event('iterates observed')
    if it <= K:
        ctx.close(seq[-1], full, 1e-12, 'capped run is not the k-th iterate')
    for k in range(1, K):
        d = np.linalg.norm(seq[k]-seq[k-1])/np.linalg.norm(seq[k-1])
        ctx.small(abs(d-errs[k])/(errs[k]+1e-12), 1e-6,
                  'reported error is not the relative change', k=k, d=d,
                  err=errs[k])
    if init is not None:
        d = np.linalg.norm(seq[0]-init)/np.linalg.norm(init)
        ctx.small(abs(d-errs[0])/(errs[0]+1e-12), 1e-6,
                  'first error is not the change from the initial point')
    # resume from an intermediate iterate
    if K >= 2:
        j = ctx.integers(1, K-1)
        S, e, i, w = observed(run, tol, K-j, seq[j-1])
        ctx.close(S, seq[K-1], 1e-8, 'restart does not continue the sequence',
                  j=j, K=K)
        S2, e2, i2, _ = observed(run, tol, 2000, seq[j-1])
        ctx.check(abs(i2-(it-j)) <= (0 if err < .999*tol else 1) or
                  abs(err-tol) < 1e-6*tol,
                  'restart needs another number of iterations', it=it, j=j,
                  i2=i2)
    ctx.check(abs(err-errs[K-1]) <= 1e-9*(1+abs(err)) if it <= K else True,
              'final error differs from that of the capped run')
    if it >= 3:
        ctx.sig(kind, cplx, p, n, it)
    ctx.sample(kind=kind, cplx=cplx, p=p, n=n, tol=tol, iterations=it,
               errors=errs)


@C09.case(quick=40)
def regimes(ctx):
    """Unusual sizes, exhausted budgets, second fits and verbosity: what is
    reported is what was done."""
    kind, cplx, how = ctx.cyc(REGIMES[1:], CPLX, KINDS)
    X = regime_data(ctx, kind, cplx, ctx.pick(('gauss', 't', 'skew')))
    n, p = X.shape
    run = runner(ctx, how, cplx, X, p)
    init = gen.spd(ctx.rng, p, cplx, 30., 10.**ctx.integers(-3, 3))
    tol = 10.**ctx.rng.uniform(-9, -2)
    full, err, it, warned = observed(run, tol, 5000, init)
    if it == 5000 and err > tol and kind in ('ties', 'near zero'):
        ctx.skip('slow convergence close to the existence limit')
    ctx.check(isinstance(it, (int, np.integer)) and 1 <= it < 5000,
              'number of iterations', it=it)
    ctx.check(err <= tol, 'stopped early without converging', err=err,
              tol=tol)
    ctx.check(not warned, 'converged run reported as not converged')
    steps = sorted({k for k in (1, it//2, it-1, it) if k >= 1})
    seen = {0: init}
    for k in sorted({j for s in steps for j in (s-1, s)} - {0}):
        # a tolerance of zero is never met before the budget is spent
        S, e, i, w = observed(run, 0., number(ctx, k), init)
        ctx.check(i == k, 'budget of k does not give k iterations', k=k, i=i)
        ctx.check(w, 'budget exhausted without any report', k=k, err=e)
        seen[k] = S, e
    for k in steps:
        S, e = seen[k]
        prev = seen[k-1] if k == 1 else seen[k-1][0]
        d = np.linalg.norm(S-prev)/np.linalg.norm(prev)
        ctx.small(abs(d-e), 1e-6*e+1e-12,
                  'reported error is not the relative change', k=k, d=d,
                  err=e, kind=kind, p=p, n=n)
        ctx.check((e > tol) if k < it else (e <= tol),
                  'did not stop at the first small change', k=k, it=it,
                  err=e, tol=tol)
        ctx.event('iterates observed')
    ctx.close(seen[it][0], full, 1e-12, 'capped run is not the k-th iterate')
    if it >= 3:
        ctx.sig(kind, how, cplx, p, n, it)


@C09.case(quick=24)
def met_exactly(ctx):
    """A change equal to the tolerance is at most the tolerance."""
    cplx, how = ctx.cyc(CPLX, KINDS+('no weights',))
    p, n = dims(ctx, 4)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(('gauss', 't')))
    init = gen.spd(ctx.rng, p, cplx, 30.)
    if how == 'no weights':     # changes nothing at all after the first step
        def run(tol, k, init):
            return HUBER_FP[cplx](X, 1., init=init, tol=tol, iter_max=k)
    else:
        run = runner(ctx, how, cplx, X, p)
    errs = [run(-1., j, init)[1] for j in range(1, ctx.integers(2, 8)+1)]
    tol = errs[-1]
    first = next(j for j, e in enumerate(errs, 1) if e <= tol)
    # several runs, should their last bits differ
    got = [run(tol, 3000, init)[2] for _ in range(3)]
    ctx.check(first in got, 'did not stop at a change equal to the tolerance',
              errors=errs, iterations=got, first=first)
    if first >= 3 or how == 'no weights':
        ctx.sig('exact', how, cplx, p, n, first)


@C09.case(quick=32)
def several_fits(ctx):
    """Attributes describe the last fit, whatever came before it."""
    kind, cplx = ctx.cyc(('tyler', 'student', 'huber'), CPLX)
    p, n = dims(ctx, 4)
    X = gen.samples(ctx.rng, n, p, cplx, 't')
    new = {'tyler': lambda **k: TYLER[cplx](**k),
           'student': lambda **k: STUDENT[cplx](2.5, **k),
           'huber': lambda **k: HUBER[cplx](.7, **k)}[kind]
    e = new(tol=1e-4, iter_max=100)
    ctx.check(e.iteration_ == 0 and e.err_ == np.inf,
              'an estimator never fitted reports iterations')
    for _ in range(4):
        kw = dict(tol=10.**ctx.rng.uniform(-9, -1),
                  iter_max=ctx.pick([1, 2, 5, 3000]),
                  verbosity=ctx.pick([False, True]))
        Y = X[:n-ctx.integers(0, p)]
        init = random_init(ctx, p, cplx)
        e.set_params(**kw).fit(Y, init=init)
        f = new(**kw).fit(Y, init=init)
        ctx.check((e.iteration_, e.err_) == (f.iteration_, f.err_),
                  'a second fit reports something else than a first one',
                  got=(e.iteration_, e.err_), want=(f.iteration_, f.err_))
        ctx.check(e.iteration_ <= kw['iter_max'], 'too many iterations')
        ctx.event('fits compared')
    ctx.sig(kind, cplx, p, n, e.iteration_)


@C09.case(quick=48)
def first_iterate(ctx):
    """One iteration from a given point is one application of the map."""
    cplx, kind = ctx.cyc(CPLX, ('tyler', 'student', 'huber'))
    p, n = dims(ctx, 5)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(gen.LAWS))
    init = gen.spd(ctx.rng, p, cplx)
    if kind == 'tyler':
        S, e, i = TYLER_FP[cplx](X, init=init, tol=1e-12, iter_max=1)
        F = tyler_map(X, init)
    elif kind == 'student':
        S, e, i = STUDENT_FP[cplx](X, 3., init=init, tol=1e-12, iter_max=1)
        F = student_map(X, init, 3., cplx)
    else:
        S, e, i = HUBER_FP[cplx](X, .8, init=init, tol=1e-12, iter_max=1)
        F = huber_map(X, init, .8, cplx)
    ctx.check(i == 1, 'one iteration requested', i=i)
    ctx.close(S, F, 1e-5, 'first iterate from the initial point', kind=kind)
    d = np.linalg.norm(S-init)/np.linalg.norm(init)
    ctx.small(abs(e-d)/(d+1e-6), 1e-8, 'reported error is not the relative change')
    ctx.sig(kind, cplx, p, n)


@C09.case(quick=16)
def kronecker_mm(ctx):
    cplx, _ = ctx.cyc(CPLX, (0, 1))
    a, b = ctx.integers(1, 3), ctx.integers(1, 3)
    X = gen.samples(ctx.rng, 12*a*b+10, a*b, cplx)
    f = structured.estimation_cov_kronecker_MM
    tol = 10.**ctx.rng.uniform(-5, -2)
    with log_records() as rec:
        A, B, err, it = f(X, a, b, tol=tol, iter_max=200)
    ctx.check(1 <= it <= 200, 'iterations', it=it)
    ctx.check(err <= tol or it == 200, 'stopped without converging', err=err,
              tol=tol)
    if it < 200:
        ctx.check(not any('converge' in r.getMessage() for r in rec),
                  'converged run reported as not converged')
    K = min(it, 6)
    prev = np.eye(a), np.eye(b)
    for k in range(1, K+1):
        with log_records() as rec:
            Ak, Bk, ek, ik = f(X, a, b, tol=tol, iter_max=k)
        ctx.check(ik == k, 'budget of k does not give k iterations')
        if ek > tol:
            ctx.check(any('converge' in r.getMessage() for r in rec),
                      'budget exhausted without any report')
        d = max(np.linalg.norm(Ak-prev[0])/np.linalg.norm(prev[0]),
                np.linalg.norm(Bk-prev[1])/np.linalg.norm(prev[1]))
        ctx.small(abs(d-ek), 1e-6*(ek+1e-9),
                  'reported error is not the relative change', k=k, d=d,
                  err=ek)
        if k < it:
            ctx.check(ek > tol, 'continued although converged')
        prev = Ak, Bk
        ctx.event('iterates observed')
    if a*b > 1 and it >= 2:
        ctx.sig('mm', cplx, a, b, it)


PROPS = {p.id: p for p in (C01, C02, C03, C04, C05, C06, C07, C08, C09)}
