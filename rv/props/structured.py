"""C14-C15: Kronecker structured estimators."""
import numpy as np

from .. import gen
from ..core import Prop
from ..lib import structured, TYLER, log_records, frozen
from .mest import array_like
from .models import ref_cost, ref_t

CPLX = (False, True)
MM = structured.estimation_cov_kronecker_MM


def factors(ctx, a, b, cplx, cond=10.):
    A, B = gen.spd(ctx.rng, a, cplx, cond), gen.spd(ctx.rng, b, cplx, cond)
    A = A/np.exp(np.linalg.slogdet(A)[1]/a)
    return A, B


def structured_data(ctx, n, a, b, cplx, law):
    A, B = factors(ctx, a, b, cplx)
    return gen.samples(ctx.rng, n, a*b, cplx, law, root=np.linalg.cholesky(
        np.kron(A, B))), A, B


def sizes(ctx, top=4, first=1):
    while True:
        a, b = ctx.integers(first, top), ctx.integers(first, top)
        if a*b <= 10:
            return a, b


def factor_gradients(X, A, B):
    """Gradient of Tyler's cost in the two factors, whitened, per sample."""
    n, p = X.shape
    a, b = len(A), len(B)
    S = np.kron(A, B)
    Si = np.linalg.inv(S)
    w = p/gen.quad(X, S)
    G = Si - Si@((X.T*w)@X.conj()/n)@Si
    ra, rb = gen.powm(gen.herm_part(A), .5), gen.powm(gen.herm_part(B), .5)
    r = np.kron(ra, rb)
    W = (r@G@r).reshape(a, b, a, b)
    return np.trace(W, axis1=1, axis2=3), np.trace(W, axis1=0, axis2=2)


def check_factors(ctx, A, B, a, b, cplx, tol=1e-7):
    for M, m, name in ((A, a, 'A'), (B, b, 'B')):
        ctx.check(M.shape == (m, m), f'shape of {name}', shape=M.shape)
        ctx.check(np.all(np.isfinite(M)), f'{name} is not finite')
        ctx.close(M, M.conj().T, tol, f'{name} is not Hermitian')
        ctx.check(np.linalg.eigvalsh(gen.herm_part(M))[0] > 0,
                  f'{name} is not positive definite')
        if not cplx:
            ctx.check(np.isrealobj(M) or np.abs(M.imag).max() < 1e-9 *
                      np.abs(M).max(), f'{name} of real data is not real')


def normalised(A, B):
    """Unique representative of the shape kron(A, B) up to scale."""
    return gen.shape_of(A), gen.shape_of(B)


# ===========================================================================
C14 = Prop('C14', 'MM runs over factor sizes, laws, budgets, real/complex; '
           'non-trivial = both factors of size >=2',
           ['general position, n >= 6 a b'], scale=4)


@C14.case(quick=64)
def stationary(ctx):
    cplx, law, iface = ctx.cyc(CPLX, gen.LAWS, ('function', 'class'))
    a, b = sizes(ctx)
    n = 6*a*b + ctx.integers(5, 30)
    X, _, _ = structured_data(ctx, n, a, b, cplx, law)
    if iface == 'function' or not cplx:
        A, B, err, it = MM(X, a, b, tol=1e-9, iter_max=600)
        ctx.check(err <= 1e-9, 'MM does not converge', err=err)
        S = np.kron(A, B)
    else:
        e = structured.KroneckerEllipticalMM(a, b, tol=1e-9, iter_max=600)
        ctx.check(e.fit(X) is e, 'fit does not return the estimator')
        A, B, S = e.A_, e.B_, e.covariance_
        ctx.close(S, np.kron(A, B), 1e-12, 'covariance is not kron(A, B)')
        ctx.close(e.get_precision()@S, np.eye(a*b), 1e-6, 'precision')
    check_factors(ctx, A, B, a, b, cplx)
    ga, gb = factor_gradients(X, A, B)
    ctx.small(np.linalg.norm(ga), 1e-5, 'not stationary in A', a=a, b=b,
              law=law)
    ctx.small(np.linalg.norm(gb), 1e-5, 'not stationary in B', a=a, b=b,
              law=law)
    # structured perturbations do not lower the cost
    c = ref_cost(X, S)
    ra, rb = gen.powm(gen.herm_part(A), .5), gen.powm(gen.herm_part(B), .5)
    for size in (.01, .3):
        H, K = gen.herm(ctx.rng, a, cplx), gen.herm(ctx.rng, b, cplx)
        P = np.kron(ra@gen.fun(size*H, np.exp)@ra,
                    rb@gen.fun(size*K, np.exp)@rb)
        ctx.check(ref_cost(X, gen.herm_part(P)) >= c-1e-8*(1+abs(c)),
                  'a structured perturbation has lower cost', size=size)
    if a > 1 and b > 1:
        ctx.sig(cplx, law, iface, a, b, n)
    ctx.sample(cplx=cplx, law=law, a=a, b=b, n=n, gradient_A=ga)


@C14.case(quick=20, timeout=300)
def regimes(ctx):
    """Larger factors, many or repeated or tiny samples, other layouts."""
    kind, cplx, iface = ctx.cyc(('large', 'thin', 'many', 'repeated', 'tiny',
                                 'layout'), CPLX, ('class', 'function'))
    a, b = sizes(ctx, 3)
    if kind == 'large':
        a, b = ctx.pick(((3, 5), (5, 4), (2, 8), (8, 2), (4, 4)))
    elif kind == 'thin':
        a, b = ctx.pick(((1, 1), (1, 9), (11, 1), (7, 1), (1, 6)))
    n = 3*a*b + ctx.integers(8, 20) if kind != 'many' else \
        ctx.integers(200, 500)
    X, _, _ = structured_data(ctx, n, a, b, cplx, ctx.pick(gen.LAWS[:6]))
    if kind == 'repeated':
        X = np.repeat(X, ctx.rng.randint(1, 6, n), axis=0)
    elif kind == 'tiny':
        X = X*10.**ctx.rng.uniform(-120, 120)
        X[:len(X)//3] *= 1e-9
    elif kind == 'layout':
        X = np.asfortranarray(X) if ctx.integers(0, 1) else \
            np.repeat(np.repeat(X, 2, 0), 3, 1)[::2, ::3]
    verb = ctx.pick([False, True])
    if iface == 'function' or not cplx:
        A, B, err, it = MM(X, a, b, tol=1e-9, iter_max=900, verbosity=verb)
        ctx.check(err <= 1e-9, 'MM does not converge', err=err, kind=kind)
        S = np.kron(A, B)
    else:
        e = structured.KroneckerEllipticalMM(a, b, tol=1e-9, iter_max=900,
                                             verbosity=verb).fit(X)
        A, B, S = e.A_, e.B_, e.covariance_
        ctx.close(S, np.kron(A, B), 1e-12, 'covariance is not kron(A, B)')
    check_factors(ctx, A, B, a, b, cplx)
    Y = X/np.linalg.norm(X, axis=1)[:, None]
    ga, gb = factor_gradients(Y, A, B)
    ctx.small(np.linalg.norm(ga), 1e-5, 'not stationary in A', a=a, b=b,
              kind=kind)
    ctx.small(np.linalg.norm(gb), 1e-5, 'not stationary in B', a=a, b=b,
              kind=kind)
    ctx.sig('regimes', kind, cplx, iface, a, b, len(X))


@C14.case(quick=48, timeout=300)
def few_samples(ctx):
    """Fewer samples than features, ill conditioned factors: the structure
    makes the problem well posed with about a+b samples."""
    cplx, cond, law = ctx.cyc(CPLX, (1., 1e2, 1e4), ('gauss', 't', 'scaled'))
    a, b = sizes(ctx)
    n = a+b+3+ctx.integers(0, 4)
    X = gen.samples(ctx.rng, n, a*b, cplx, law, root=np.linalg.cholesky(
        np.kron(*factors(ctx, a, b, cplx, cond))))
    A, B, err, _ = MM(X, a, b, tol=1e-9, iter_max=3000)
    ctx.check(err <= 1e-9, 'MM does not converge', err=err, n=n)
    check_factors(ctx, A, B, a, b, cplx)
    ga, gb = factor_gradients(X, A, B)
    ctx.small(np.linalg.norm(ga), 1e-5, 'not stationary in A', a=a, b=b, n=n)
    ctx.small(np.linalg.norm(gb), 1e-5, 'not stationary in B', a=a, b=b, n=n)
    if a > 1 and b > 1:
        ctx.sig('few', cplx, cond, law, a, b, n)


@C14.case(quick=32)
def monotone(ctx):
    cplx, law = ctx.cyc(CPLX, ('gauss', 't', 'scaled', 'skew'))
    a, b = sizes(ctx)
    X, _, _ = structured_data(ctx, 6*a*b+8, a, b, cplx, law)
    c = [ref_cost(X, np.eye(a*b, dtype=X.dtype))]
    for k in range(1, 9):
        A, B, _, it = MM(X, a, b, tol=0., iter_max=k)
        c.append(ref_cost(X, np.kron(A, B)))
        ctx.event('iterates observed')
    ctx.check(np.all(np.diff(c) <= 1e-9*(1+np.abs(c[0]))),
              'an iteration increases the cost', costs=c, law=law)
    if a > 1 and b > 1:
        ctx.sig(cplx, law, a, b, float(c[-1]))


@C14.case(quick=48)
def invariances(ctx):
    cplx, what = ctx.cyc(CPLX, ('scale', 'phase', 'order', 'repeat',
                                'linear', 'swap'))
    a, b = sizes(ctx)
    n = 6*a*b+8
    X, _, _ = structured_data(ctx, n, a, b, cplx, ctx.pick(gen.LAWS))
    kw = dict(tol=1e-10, iter_max=800)
    A, B = normalised(*MM(X, a, b, **kw)[:2])
    if what == 'scale':
        Y = X*10.**ctx.rng.uniform(-8, 8, n)[:, None]
    elif what == 'phase':
        c = np.exp(2j*np.pi*ctx.rng.rand(n)) if cplx else ctx.rng.choice(
            [-1., 1.], n)
        Y = X*c[:, None]
    elif what == 'order':
        Y = X[ctx.rng.permutation(n)]
    elif what == 'repeat':
        Y = np.vstack([X, X])
    elif what == 'linear':
        P, Q = gen.invertible(ctx.rng, a, cplx), gen.invertible(ctx.rng, b,
                                                                cplx)
        Y = X@np.kron(P, Q).T
        A, B = normalised(P@A@P.conj().T, Q@B@Q.conj().T)
    else:
        Y = X.reshape(n, a, b).transpose(0, 2, 1).reshape(n, a*b)
        a, b, A, B = b, a, B, A
    A2, B2 = normalised(*MM(Y, a, b, **kw)[:2])
    ctx.small(gen.whitened_error(A, A2), 1e-5, f'{what} changes A')
    ctx.small(gen.whitened_error(B, B2), 1e-5, f'{what} changes B')
    if a > 1 and b > 1:
        ctx.sig(cplx, what, a, b)


@C14.case(quick=32)
def trivial_factor_is_tyler(ctx):
    """With a 1x1 factor the structure is void: Tyler's estimate."""
    cplx, which, law = ctx.cyc(CPLX, 'ab', ('gauss', 't', 'scaled', 'skew'))
    p = ctx.integers(2, 5)
    X = gen.samples(ctx.rng, 8*p+5, p, cplx, law)
    a, b = (1, p) if which == 'a' else (p, 1)
    A, B, err, _ = MM(X, a, b, tol=1e-10, iter_max=1500)
    T = TYLER[cplx](tol=1e-10, iter_max=4000).fit(X).covariance_
    ctx.small(gen.whitened_error(gen.shape_of(T), gen.shape_of(
        np.kron(A, B))), 1e-5, 'not the Tyler estimate', which=which)
    ctx.sig(cplx, which, law, p)


@C14.case(quick=24, thorough=120)
def recovers(ctx):
    cplx, law = ctx.cyc(CPLX, ('gauss', 't', 'gamma', 'scaled'))
    a, b = sizes(ctx, 3, 2)
    n = 1000 if not ctx.thorough else 4000
    X, A, B = structured_data(ctx, n, a, b, cplx, law)
    A2, B2, _, _ = MM(X, a, b, tol=1e-7, iter_max=200)
    check_factors(ctx, A2, B2, a, b, cplx)
    for M, M2, name in ((A, A2, 'A'), (B, B2, 'B')):
        bound = 9*np.sqrt((len(M)+1)*len(M)/(n*a*b))
        ctx.small(gen.whitened_error(gen.shape_of(M), gen.shape_of(M2)),
                  bound, f'{name} is not recovered', law=law, cplx=cplx)
        if cplx and len(M) > 1:
            ctx.check(np.linalg.norm(gen.shape_of(M2)-gen.shape_of(M)) <
                      np.linalg.norm(gen.shape_of(M2).conj() -
                                     gen.shape_of(M)) or
                      np.linalg.norm(M.imag) < 5*bound*np.linalg.norm(M),
                      f'conjugate of {name} is closer')
    ctx.sig(cplx, law, a, b)


@C14.case(quick=16)
def wrong_sizes(ctx):
    cplx, iface = ctx.cyc(CPLX, ('function', 'class'))
    a, b = ctx.integers(2, 4), ctx.integers(2, 4)
    p = a*b+ctx.pick((-1, 1, a))
    X = gen.samples(ctx.rng, 5*p+40, p, cplx)
    with log_records() as rec:
        if iface == 'function':
            ctx.check(MM(X, a, b) is None, 'an estimate was returned')
        else:
            e = structured.KroneckerEllipticalMM(a, b)
            try:
                e.fit(X.astype(complex))
            except Exception:
                ctx.event('rejections observed')
            ctx.check(not hasattr(e, 'covariance_'),
                      'an estimate was returned')
    ctx.check(any(r.levelname in ('ERROR', 'CRITICAL') for r in rec),
              'size mismatch is not reported')
    ctx.sig(cplx, iface, a, b, p)


# ===========================================================================
C15 = Prop('C15', 'costs, gradients and fits over factor sizes, df and '
           'locations; non-trivial = both factors of size >=2',
           ['general position, n >= 6 a b; solver accuracy of the conjugate '
            'gradient (relative gradient 1e-3)'], scale=4)


def ref_loglik(X, m, S, df):
    return np.sum(ref_t(X, m, S, df))


@C15.case(quick=64)
def cost_and_gradient(ctx):
    with_loc, df = ctx.cyc((False, True), (.2, .6, 1, 3., 20, 500., 1e4))
    a, b = sizes(ctx, 5)
    n = ctx.pick((ctx.integers(1, 25), ctx.integers(120, 260)))
    X, _, _ = structured_data(ctx, n, a, b, True, ctx.pick(gen.LAWS))
    loc = gen.randn(ctx.rng, (a*b,), True)*2 if with_loc else None
    m = 0 if loc is None else loc
    if ctx.index % 4 == 1:      # samples at, or next to, the location
        X = X*ctx.rng.choice([0., 1e-7, 1e-2, 1.], n)[:, None]
    elif ctx.index % 4 == 2:    # far samples
        X = X*10.**ctx.rng.uniform(0, 5, n)[:, None]
    elif ctx.index % 4 == 3 and ctx.integers(0, 1):     # small samples
        X = X*10.**ctx.rng.uniform(-5, 0)
    X = X + m
    A, B = gen.spd(ctx.rng, a, True, 10.), gen.spd(ctx.rng, b, True, 10.)
    if ctx.index % 3 == 0:
        A, B = np.eye(a, dtype=complex), np.eye(b, dtype=complex)
    f = structured._generate_cost_function_kronecker_student(X, df, loc)
    g = structured._generate_egrad_function_kronecker_student(
        X, a, b, df, loc)
    c = f(A, B)
    ref = -ref_loglik(X, m, np.kron(A, B), df)
    ctx.small((c-ref)/(1+abs(ref)), 1e-9, 'cost is not minus the complex t '
              'log-likelihood', df=df, with_loc=with_loc)
    GA, GB = g(A, B)
    ctx.check(GA.shape == A.shape and GB.shape == B.shape, 'gradient shape')
    # closed form, the terms of the samples apart from that of determinants
    r = np.kron(gen.powm(A, .5), gen.powm(B, .5))
    i = np.linalg.inv(r)
    Y = (X-m)@i.T
    w = (df/2+a*b)/(df/2+np.sum(np.abs(Y)**2, axis=1))
    D = ((Y.T*w)@Y.conj()).reshape(a, b, a, b)
    E = np.eye(a*b).reshape(a, b, a, b)*n
    for M, G, i, j, name in ((A, GA, 1, 3, 'A'), (B, GB, 0, 2, 'B')):
        M = gen.powm(M, .5)
        D_, E_ = np.trace(D, axis1=i, axis2=j), np.trace(E, axis1=i, axis2=j)
        err = np.linalg.norm(M@gen.herm_part(G)@M-E_+D_)
        ctx.small(err/(np.linalg.norm(D_)+1e-4*np.linalg.norm(E_)), 1e-8,
                  f'gradient in {name} is not the closed form', df=df, a=a,
                  b=b, loc=with_loc)
    for _ in range(3):
        H = gen.herm(ctx.rng, a, True)
        K = gen.herm(ctx.rng, b, True)
        H = H/max(np.linalg.norm(H), 1e-9)*np.linalg.eigvalsh(A)[0]
        K = K/max(np.linalg.norm(K), 1e-9)*np.linalg.eigvalsh(B)[0]
        h = 1e-4

        def val(t, s):
            return -ref_loglik(X, m, np.kron(A+t*H, B+s*K), df)
        dA = (val(h, 0)-val(-h, 0))/(2*h)
        dB = (val(0, h)-val(0, -h))/(2*h)
        scale = n*a*b + max(abs(dA), abs(dB)) + 1e-6*abs(ref)
        ctx.small((dA-np.real(np.sum(GA.conj()*H)))/scale, 1e-5,
                  'gradient in A is wrong', df=df, a=a, b=b, loc=with_loc)
        ctx.small((dB-np.real(np.sum(GB.conj()*K)))/scale, 1e-5,
                  'gradient in B is wrong', df=df, a=a, b=b, loc=with_loc)
        ctx.event('directional derivatives compared', 2)
    if a > 1 and b > 1:
        ctx.sig(with_loc, df, a, b, n)
    ctx.sample(df=df, a=a, b=b, n=n, cost=c, with_location=with_loc)


def student_gradients(X, m, A, B, df):
    n, p = X.shape
    a, b = len(A), len(B)
    S = np.kron(A, B)
    Si = np.linalg.inv(S)
    Y = X-m
    w = (df/2+p)/(df/2+gen.quad(Y, S))
    G = Si - Si@((Y.T*w)@Y.conj()/n)@Si
    r = np.kron(gen.powm(gen.herm_part(A), .5),
                gen.powm(gen.herm_part(B), .5))
    W = (r@G@r).reshape(a, b, a, b)
    return np.trace(W, axis1=1, axis2=3), np.trace(W, axis1=0, axis2=2)


def fit(ctx, X, a, b, df, **kw):
    init = kw.pop('init', None)
    e = structured.KroneckerStudent(a, b, df, **kw)
    ctx.check(e.fit(frozen(X), init=init) is e,
              'fit does not return the estimator')
    return e


@C15.case(quick=64, timeout=400)
def fitted(ctx):
    centred, df, law = ctx.cyc((True, False), (1., 3., 20.),
                               ('gauss', 't', 'gamma', 'skew'))
    a, b = sizes(ctx, 3)
    n = 6*a*b + ctx.integers(10, 30)
    X, _, _ = structured_data(ctx, n, a, b, True, law)
    if not centred:
        X = X + 3*gen.randn(ctx.rng, (a*b,), True)
    e = fit(ctx, X, a, b, df, assume_centered=centred)
    m = 0 if centred else X.mean(0)
    A, B, S = e.A_, e.B_, e.covariance_
    check_factors(ctx, A, B, a, b, True)
    ctx.small(abs(np.linalg.det(A)-1), 1e-7, 'det(A) is not one')
    ctx.close(S, np.kron(A, B), 1e-12, 'covariance is not kron(A, B)')
    ctx.close(e.location_, m+np.zeros(a*b), 1e-9, 'location')
    ga, gb = student_gradients(X, m, A, B, df)
    ga = ga-np.trace(ga)/a*np.eye(a)
    ctx.small(np.linalg.norm(ga), 2e-4, 'not stationary in A', df=df,
              law=law, a=a, b=b)
    ctx.small(np.linalg.norm(gb), 2e-4, 'not stationary in B', df=df,
              law=law, a=a, b=b)
    ll = ref_loglik(X, m, S, df)
    ra, rb = gen.powm(gen.herm_part(A), .5), gen.powm(gen.herm_part(B), .5)
    for size in (.05, .5):
        H, K = gen.herm(ctx.rng, a, True), gen.herm(ctx.rng, b, True)
        P = np.kron(ra@gen.fun(size*H, np.exp)@ra,
                    rb@gen.fun(size*K, np.exp)@rb)
        ctx.check(ref_loglik(X, m, gen.herm_part(P), df) <=
                  ll+1e-3, 'a structured perturbation is more '
                  'likely', size=size)
    ctx.small((e.score(X)-ll)/(1+abs(ll)), 1e-9, 'score of the training set')
    Y = X[:ctx.integers(1, 9)]*1.5 + .3
    ref = ref_loglik(Y, m, S, df)
    keep = S.copy(), np.copy(e.location_)
    ctx.small((e.score(Y)-ref)/(1+abs(ref)), 1e-9, 'score of other data')
    ctx.equal(e.covariance_, keep[0], 'score changes the estimate')
    ctx.equal(e.location_, keep[1], 'score changes the location')
    if a > 1 and b > 1:
        ctx.sig(centred, df, law, a, b, n)
    ctx.sample(a=a, b=b, df=df, n=n, law=law, loglik=ll, score=e.score(X))


@C15.case(quick=48, timeout=400)
def few_samples(ctx):
    """Fewer samples than features, ill conditioned factors, unknown means."""
    centred, cond, df = ctx.cyc((True, False, False), (1., 1e2, 1e4),
                                (1., 3., 20.))
    a, b = sizes(ctx)
    n = a+b+3+ctx.integers(0, 4)
    X = gen.samples(ctx.rng, n, a*b, True, ctx.pick(('gauss', 't')),
                    root=np.linalg.cholesky(np.kron(*factors(
                        ctx, a, b, True, cond))))
    if not centred:
        X = X + ctx.pick((.1, 3.))*gen.randn(ctx.rng, (a*b,), True)
    e = fit(ctx, X, a, b, df, assume_centered=centred)
    m = 0 if centred else X.mean(0)
    ctx.close(e.location_, m+np.zeros(a*b), 1e-9, 'location')
    ctx.close(e.covariance_, np.kron(e.A_, e.B_), 1e-12,
              'covariance is not kron(A, B)')
    check_factors(ctx, e.A_, e.B_, a, b, True)
    ctx.small(abs(np.linalg.det(e.A_)-1), 1e-7, 'det(A) is not one')
    ga, gb = student_gradients(X, m, e.A_, e.B_, df)
    ga = ga-np.trace(ga)/a*np.eye(a)
    ctx.small(np.linalg.norm(ga), 1e-4, 'not stationary in A', df=df, n=n)
    ctx.small(np.linalg.norm(gb), 1e-4, 'not stationary in B', df=df, n=n)
    ll = ref_loglik(X, m, e.covariance_, df)
    ctx.small((e.score(X)-ll)/(1+abs(ll)), 1e-9, 'score of the training set')
    if a > 1 and b > 1:
        ctx.sig('few', centred, cond, df, a, b, n)


@C15.case(quick=32, timeout=400)
def initial_point(ctx):
    df, law = ctx.cyc((1., 4., 30.), ('gauss', 't', 'skew'))
    a, b = sizes(ctx, 3)
    X, _, _ = structured_data(ctx, 8*a*b+15, a, b, True, law)
    e = fit(ctx, X, a, b, df)
    init = factors(ctx, a, b, True, 4.)
    if ctx.rng.rand() < .6:     # any pair of factors is an initial covariance
        init = (init[0]*10.**ctx.rng.uniform(-1, 1), init[1])
    if ctx.rng.rand() < .3:     # real numbers are complex numbers too
        init = (init[0].real, np.eye(b))
    f = fit(ctx, X, a, b, df, init=(array_like(ctx, init[0]),
                                    array_like(ctx, init[1])))
    ctx.small(gen.whitened_error(e.covariance_, f.covariance_), 5e-4,
              'estimate depends on the initial point', df=df, a=a, b=b)
    ctx.small(abs(np.linalg.det(f.A_)-1), 1e-7, 'det(A) is not one')
    # equivalent problems
    P, Q = gen.invertible(ctx.rng, a, True, 3.), gen.invertible(
        ctx.rng, b, True, 3.)
    K = np.kron(P, Q)
    g = fit(ctx, X@K.T, a, b, df)
    ctx.small(gen.whitened_error(gen.herm_part(K@e.covariance_@K.conj().T),
                                 g.covariance_), 5e-4,
              'not equivariant to structured linear maps', df=df)
    if a > 1 and b > 1:
        ctx.sig(df, law, a, b)


@C15.case(quick=16, thorough=80, timeout=400)
def recovers_scatter(ctx):
    df = ctx.cyc((1., 3., 10.))
    a, b = ctx.cyc(((2, 2), (2, 3), (3, 2)), (0,))[0]
    n = 1500
    X, A, B = structured_data(ctx, n, a, b, True, 'gauss')
    # complex t with df: real t of dimension 2p
    X = X/np.sqrt(ctx.rng.chisquare(df, n)/df)[:, None]
    e = fit(ctx, X, a, b, df)
    ctx.small(gen.whitened_error(np.kron(A, B), e.covariance_),
              9*np.sqrt((a*b+2)/n), 'true scatter is not recovered', df=df,
              a=a, b=b)
    ctx.small(gen.whitened_error(A, e.A_), 9*np.sqrt((a+2)/(n*b)),
              'true A is not recovered')
    ctx.sig(df, a, b, ctx.index)


PROPS = {p.id: p for p in (C14, C15)}
