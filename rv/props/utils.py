"""C24 linear algebra, C25 synthetic data, C26 temporary seeds."""
import contextlib
import random

import autograd
import numpy as np
from scipy import stats

from .. import gen
from ..core import Prop
from ..lib import linalg as L, generation_data as G, montecarlo, backend, \
    frozen

temp_seed = montecarlo.temp_seed

# ---------------------------------------------------------------------------
C24 = Prop('C24', 'distinct (function, size, field, spectrum class, backend) '
           'results compared with the spectral definition', scale=60,
           assumptions=['exactness up to the rounding of the eigenvalue '
                        'decomposition: the tolerance grows with the '
                        'condition number of the result'])

SPECTRA = ('random', 'identity', 'scaled', 'ill', 'repeated', 'diagonal',
           'tiny', 'huge')


def matrix(ctx, p, cplx, kind):
    r = ctx.rng
    if kind == 'identity':
        return np.eye(p, dtype=complex if cplx else float)
    if kind == 'diagonal':
        return np.diag(r.uniform(.1, 9, p)).astype(complex if cplx else float)
    if kind == 'repeated':
        u = gen.unitary(r, p, cplx)
        d = np.where(np.arange(p) < p//2, 4., .25)
        return gen.herm_part((u*d)@u.conj().T)
    if kind == 'ill':
        return gen.spd(r, p, cplx, 1e6)
    scale = {'scaled': 10.**r.uniform(-3, 3), 'tiny': 1e-60,
             'huge': 1e60}.get(kind, 1.)
    return gen.spd(r, p, cplx, 30., scale)


def named(name, alpha=None):
    """(library function, its action on the spectrum)."""
    return {'sqrtm': (L.sqrtm, np.sqrt),
            'invsqrtm': (L.invsqrtm, lambda x: x**-.5),
            'logm': (L.logm, np.log), 'expm': (L.expm, np.exp),
            'powm': (lambda C, **k: L.powm(C, alpha, **k),
                     lambda x: x**alpha)}[name]


def spectral_error(got, want):
    return np.linalg.norm(got-want, 2)/max(np.linalg.norm(want, 2), 1e-300)


FUNCTIONS = ('sqrtm', 'invsqrtm', 'logm', 'expm', 'powm')


@C24.case(160)
def functions(ctx):
    name, cplx, kind = ctx.cyc(FUNCTIONS, (False, True), SPECTRA)
    p = ctx.integers(1, 7)
    if name in ('expm',) and kind in ('huge', 'ill'):
        kind = 'scaled'
    C = matrix(ctx, p, cplx, kind)
    if name == 'expm':
        C = C/max(1., np.linalg.norm(C, 2)/3)*ctx.pick((1., -1.))
        if ctx.integers(0, 1):
            C = gen.herm(ctx.rng, p, cplx)
    alpha = ctx.pick((0, 1, 2, -1, .5, -.5, 1/3, -2, 1.7, 3, -3.3))
    f, g = named(name, alpha)
    if kind in ('tiny', 'huge') and name == 'powm':
        alpha = ctx.pick((.5, -.5, 1, -1, 2))
        f, g = named(name, alpha)
    D = frozen(C)
    out = f(D)
    ctx.equal(D, C, 'the argument is not modified')
    ctx.check(out.shape == (p, p), 'shape', got=out.shape)
    ctx.check(np.iscomplexobj(out) == cplx, 'type of the result',
              got=str(out.dtype))
    d, u = np.linalg.eigh(C)
    want = (u*g(d))@u.conj().T
    big = np.abs(g(d)).max()
    # relative accuracy of the image of the smallest eigenvalues
    cond = d.max()/d.min() if name != 'expm' else 1.
    tol = 1e-13*p*(1+cond*(abs(alpha) if name == 'powm' else 1.))
    if name == 'logm':
        tol = tol*(1+1/max(big, 1e-300))if big > 1e-6 else 1.
    if name != 'logm' or big > 1e-6:
        ctx.small(spectral_error(out, want), tol,
                  f'{name} is the spectral function', p=p, cond=cond,
                  alpha=alpha)
    else:
        ctx.small(np.abs(out), 1e-12, 'logarithm of the identity')
    ctx.small(np.linalg.norm(out-out.conj().T), 1e-12*max(big, 1e-300)*p,
              f'{name} is Hermitian')
    e = np.linalg.eigvalsh(gen.herm_part(out))
    ctx.small((e-np.sort(g(d)))/max(big, 1e-300), max(tol, 1e-12)
              if name != 'logm' else 1e-9*cond+1e-12,
              f'{name} has the transformed spectrum')
    # autograd backend
    a = f(C, autograd=True)
    ctx.check(np.iscomplexobj(a) == cplx, 'type with autograd')
    ctx.small(np.linalg.norm(a-out), 1e-12*(1+cond)*max(big, 1e-300),
              f'{name}: the backends agree')
    ctx.event('backends compared')
    ctx.sig(name, p, cplx, kind, alpha if name == 'powm' else None)
    ctx.sample(function=name, p=p, complex=cplx, spectrum=kind)


@C24.case(80)
def identities(ctx):
    cplx, kind = ctx.cyc((False, True), SPECTRA[:6])
    p = ctx.integers(1, 6)
    C = matrix(ctx, p, cplx, kind)
    d = np.linalg.eigvalsh(C)
    cond = d[-1]/d[0]
    tol = 1e-12*p*(1+cond)
    n = np.linalg.norm
    be = {'autograd': bool(ctx.integers(0, 1))}
    S, W = L.sqrtm(C, **be), L.invsqrtm(C, **be)
    ctx.small(n(S@S-C)/n(C), tol, 'square of the square root')
    ctx.small(n(W@C@W-np.eye(p)), tol, 'whitening')
    ctx.small(n(S@W-np.eye(p)), tol, 'inverse of the square root')
    ctx.small(n(L.expm(L.logm(C, **be), **be)-C)/n(C), tol,
              'exponential of the logarithm')
    H = gen.herm(ctx.rng, p, cplx)
    ctx.small(n(L.logm(L.expm(H, **be), **be)-H),
              1e-12*p*np.exp(2*np.abs(np.linalg.eigvalsh(H)).max()),
              'logarithm of the exponential')
    a, b = ctx.rng.uniform(-2, 2, 2)
    A, B = L.powm(C, a, **be), L.powm(C, b, **be)
    AB = L.powm(C, a+b, **be)
    ctx.small(n(A@B-AB)/(n(A)*n(B)), 1e-12*p, 'powers add', a=a, b=b)
    ctx.small(n(L.powm(C, -1, **be)@C-np.eye(p)), tol, 'power -1')
    ctx.small(n(L.powm(C, 2, **be)-C@C)/n(C)**2, 1e-12*p, 'power 2')
    ctx.small(n(L.powm(C, .5, **be)-S)/n(S), 1e-12*p, 'power 1/2')
    ctx.small(n(L.powm(C, 0, **be)-np.eye(p)), 1e-12*p, 'power 0')
    Q = gen.unitary(ctx.rng, p, cplx)
    R = gen.herm_part(Q@C@Q.conj().T)
    ctx.small(n(L.sqrtm(R, **be)-Q@S@Q.conj().T)/n(S), tol,
              'unitary equivariance')
    ctx.small(abs(np.trace(L.logm(C, **be))-np.linalg.slogdet(C)[1]),
              tol+1e-12*np.abs(np.log(d)).sum(), 'trace of the logarithm')
    ctx.sig('identities', p, cplx, kind, be['autograd'])


@C24.case(48)
def unusual_powers(ctx):
    """Large, tiny and negative exponents; larger matrices; exact spectra."""
    cplx, how = ctx.cyc((False, True), ('large', 'tiny', 'integer', 'size'))
    be = {'autograd': bool(ctx.integers(0, 1))}
    p = ctx.integers(1, 5) if how != 'size' else ctx.integers(16, 60)
    u = gen.unitary(ctx.rng, p, cplx)
    d = ctx.rng.uniform(.9, 1.1, p) if how in ('large', 'integer') else \
        np.exp(ctx.rng.uniform(-3, 3, p))
    C = gen.herm_part((u*d)@u.conj().T)
    a = {'large': lambda: ctx.pick((64, 127, 128, 129, 200., -130, -255, 256,
                                    300.5, 1000, -1000.)),
         'tiny': lambda: ctx.pick((1e-3, -1e-6, 1e-9, .01)),
         'integer': lambda: ctx.integers(-40, 40),
         'size': lambda: ctx.pick((2, -1, .5, -2.5, 7))}[how]()
    if ctx.integers(0, 1):
        a = np.float64(a)
    got = L.powm(frozen(C), a, **be)
    e, v = np.linalg.eigh(C)
    want = (v*e**float(a))@v.conj().T
    ctx.small(spectral_error(got, want), 1e-12*p*(1+abs(a)),
              'powm is the spectral function', p=p, alpha=a)
    if how == 'size':
        for name in FUNCTIONS[:4]:
            f, g = named(name)
            ctx.small(spectral_error(f(C, **be), (v*g(e))@v.conj().T), 1e-10,
                      f'{name} is the spectral function', p=p)
    ctx.sig('powers', p, cplx, how, float(a), be['autograd'])


@C24.case(48)
def exact_spectra(ctx):
    """Diagonal matrices over the whole range of magnitudes, entry by entry,
    and whole powers of indefinite Hermitian matrices."""
    cplx, how = ctx.cyc((False, True), ('range', 'zero', 'indefinite'))
    be = {'autograd': bool(ctx.integers(0, 1))}
    p = ctx.integers(1, 6)
    if how == 'indefinite':
        C = gen.herm(ctx.rng, p, cplx)+ctx.pick((0., -3.))*np.eye(p)
        k = ctx.pick((1, 2, 3, 5, 7))
        want = np.linalg.matrix_power(C, k)
        ctx.small(np.linalg.norm(L.powm(C, k, **be)-want)/(
            np.linalg.norm(C, 2)**k), 1e-12*p*k, 'whole power', k=k)
        ctx.small(np.linalg.norm(L.powm(C, float(k), **be)-want)/(
            np.linalg.norm(C, 2)**k), 1e-12*p*k, 'whole power', k=k)
        ctx.sig('exact', how, cplx, p, k)
        return
    d = 10.**ctx.rng.uniform(-1, 1, p)
    if how == 'range':
        d = 10.**ctx.rng.uniform(-60, 60, p)
    elif p > 1:
        d[:ctx.integers(1, p)] = 0.
    C = np.diag(ctx.rng.permutation(d)).astype(complex if cplx else float)
    d = np.real(np.diag(C))
    names = [('sqrtm', np.sqrt, None), ('powm', lambda x: x**2, 2),
             ('powm', lambda x: x**1.5, 1.5)]
    if how == 'range':
        names += [('invsqrtm', lambda x: x**-.5, None),
                  ('logm', np.log, None), ('powm', lambda x: x**-1., -1)]
    for name, g, a in names:
        got = named(name, a)[0](C, **be)
        ctx.small(np.abs(np.diag(got)-g(d))/np.maximum(np.abs(g(d)), 1e-300),
                  1e-11, f'{name} of a diagonal matrix', alpha=a, how=how)
        ctx.check(np.count_nonzero(got-np.diag(np.diag(got))) == 0,
                  f'{name} of a diagonal matrix is diagonal')
    ctx.sig('exact', how, cplx, p, be['autograd'])


@C24.case(32)
def differentiable(ctx):
    """The autograd backend is differentiable, and right (real matrices)."""
    p = ctx.integers(2, 4)
    u = gen.unitary(ctx.rng, p, False)
    C = gen.herm_part((u*(1.+np.arange(p)+.3*ctx.rng.rand(p)))@u.T)
    name = ctx.cyc(FUNCTIONS)
    f, g = named(name, .7)
    W = gen.herm(ctx.rng, p, False)
    got = autograd.grad(lambda M: autograd.numpy.sum(
        W*f(M, autograd=True)))(C)
    E = gen.herm(ctx.rng, p, False)
    t = 1e-5
    want = np.sum(W*(gen.fun(C+t*E, g)-gen.fun(C-t*E, g)))/(2*t)
    ctx.small(abs(np.sum(gen.herm_part(got)*E)-want)/(1+abs(want)), 1e-5,
              f'gradient of {name}')
    ctx.sig('gradient', name, p)


def single_precision(ctx, M):
    """Vectors of other types hold the same entries, in the same type."""
    M = gen.herm_part(M)
    M = M.astype(np.complex64 if np.iscomplexobj(M) else np.float32)
    p = len(M)
    for order in 'CF':
        H = frozen(np.array(M, order=order))
        ctx.equal(L.vec(H), np.array(
            [H[i, j] for j in range(p) for i in range(p)]),
            'vec of single precision')
        h = L.vech(H)
        ctx.equal(h, np.array(
            [H[i, j] for j in range(p) for i in range(j, p)]),
            'vech of single precision')
        ctx.equal(L.unvec(L.vec(H)), H, 'unvec of single precision')
        U = L.unvech(h)
        ctx.check(U.dtype == H.dtype, 'type of unvech', got=str(U.dtype))
        ctx.equal(U, H, 'unvech of single precision')
    ctx.event('single precision compared')


@C24.case(120)
def vectorisation(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p = ctx.integers(1, 8)
    M = gen.randn(ctx.rng, (p, p), cplx)*10.**ctx.rng.uniform(-5, 5)
    if ctx.integers(0, 4) == 0:
        single_precision(ctx, M)
    if ctx.integers(0, 1):
        M = np.asfortranarray(M)
    v = L.vec(frozen(M))
    ctx.equal(v, np.array([M[i, j] for j in range(p) for i in range(p)]),
              'vec stacks the columns')
    ctx.equal(L.unvec(frozen(v)), M, 'unvec inverts vec')
    R = gen.randn(ctx.rng, (p, p+2), cplx)
    ctx.equal(L.vec(R), np.concatenate(list(R.T)), 'vec, rectangular')
    H = gen.herm_part(M)
    H[np.diag_indices(p)] = np.real(H[np.diag_indices(p)])
    h = L.vech(frozen(H))
    ctx.check(h.shape == (p*(p+1)//2,), 'size of vech', got=h.shape)
    ctx.equal(h, np.array([H[i, j] for j in range(p) for i in range(j, p)]),
              'vech stacks the columns of the lower triangle')
    ctx.equal(L.unvech(frozen(h)), H, 'unvech inverts vech exactly')
    ctx.equal(L.vech(L.unvech(h)), h, 'vech inverts unvech')
    A, B = gen.randn(ctx.rng, (p, p), cplx), gen.randn(ctx.rng, (p, p), cplx)
    ctx.close(L.vec(A@M@B), np.kron(B.T, A)@L.vec(M), 1e-10,
              'vec of a product')
    if p > 1:
        k = ctx.integers(2, 60)
        if int(round(k**.5))**2 != k:
            ctx.raises(AssertionError, lambda: L.unvec(np.zeros(k)),
                       'unvec of a wrong size')
    ctx.sig('vec', p, cplx, M.flags.f_contiguous)


@C24.case(60)
def large_half_vectors(ctx):
    """Sizes for which the quadratic formula is rounded."""
    p = ctx.pick((30, 64, 127, 201))
    cplx = bool(ctx.integers(0, 1))
    H = gen.herm(ctx.rng, p, cplx)
    H[np.diag_indices(p)] = np.real(H[np.diag_indices(p)])
    ctx.equal(L.unvech(L.vech(H)), H, 'unvech inverts vech exactly', p=p)
    ctx.equal(L.unvec(L.vec(H)), H, 'unvec inverts vec', p=p)
    ctx.sig('large', p, cplx)


@C24.case(80)
def hermitian_parts(ctx):
    cplx, ag = ctx.cyc((False, True), (False, True))
    p = ctx.integers(1, 6)
    shape = ctx.pick(((), (), (1,), (3,), (5,)))
    M = gen.randn(ctx.rng, shape+(p, p), cplx)
    F = frozen(M)
    T = np.swapaxes(M, -1, -2).conj()
    ctx.equal(L.multihconj(F, autograd=ag), T, 'stacked conjugate transpose')
    out = L.multiherm(F, autograd=ag)
    ctx.close(out, (M+T)/2, 1e-15, 'stacked Hermitian parts')
    ctx.equal(np.swapaxes(out, -1, -2).conj(), out, 'exactly Hermitian')
    ctx.close(L.multiherm(out, autograd=ag), out, 1e-15, 'idempotent')
    if shape == ():
        h = L.hermitian(F, autograd=ag)
        ctx.close(h, (M+T)/2, 1e-15, 'Hermitian part')
        skew = M-h
        ctx.small(np.abs(skew+skew.conj().T), 1e-12, 'the rest is skew')
    ctx.check(np.iscomplexobj(out) == cplx, 'type')
    ctx.sig('herm', shape, p, cplx, ag)


@C24.case(60)
def toeplitz(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p = ctx.integers(1, 12)
    rho = ctx.rng.uniform(-.99, .99) if not cplx else \
        ctx.rng.uniform(0, .99)*np.exp(2j*np.pi*ctx.rng.rand())
    if ctx.rng.rand() < .1:
        rho = 0.*rho
    dtype = ctx.pick((complex, None)) if cplx else ctx.pick(
        (float, complex, np.float32))
    T = L.ToeplitzMatrix(rho, p) if dtype is None else \
        L.ToeplitzMatrix(rho, p, dtype)
    ctx.check(T.dtype == np.dtype(dtype or complex), 'requested dtype',
              got=str(T.dtype))
    i = np.arange(p)
    d = i[:, None]-i[None, :]
    r = np.asarray(rho, complex)
    want = np.where(d >= 0, r**np.abs(d), np.conj(r)**np.abs(d))
    ctx.close(T.astype(complex), want, 1e-6 if dtype == np.float32 else 1e-13,
              'entries rho^|i-j|', rho=rho, p=p)
    ctx.equal(T, T.conj().T, 'Hermitian')
    ctx.check(np.linalg.eigvalsh(T)[0] > -1e-6, 'non-negative')
    ctx.sig('toeplitz', p, cplx, str(T.dtype))


@C24.case(4)
def backends(ctx):
    import numpy.linalg as la
    import autograd.numpy as npa
    import autograd.numpy.linalg as laa
    ctx.check(backend.get_be_autograd(False) is np, 'numpy')
    ctx.check(backend.get_be_autograd(True) is npa, 'autograd')
    ctx.check(backend.get_be_la_autograd(False) is la, 'numpy.linalg')
    ctx.check(backend.get_be_la_autograd(True) is laa, 'autograd linalg')
    ctx.sig('backend', ctx.index)


# ---------------------------------------------------------------------------
C25 = Prop('C25', 'distinct (generator, size, field, parameters, seed) whose '
           'output was tested against the prescribed law', scale=6,
           assumptions=['sizes from two up (scipy refuses rotations of '
                        'dimension one)',
                        'statistical oracles alarm at a false alarm '
                        'probability below 1e-9 per test',
                        'the "variance" of log-normal textures is that of '
                        'their logarithm (as written in the code)'])

PMIN = 1e-10


def seeded(ctx, fn):
    """Result of fn and the check that it is a function of the seed of the
    global generator alone."""
    s = ctx.integers(0, 2**31)
    out = []
    for _ in range(2):
        np.random.seed(s)
        random.seed(ctx.index)
        out.append(fn())
        np.random.random_sample(ctx.integers(1, 5))
    ctx.equal(out[0], out[1], 'reproducible from the seed')
    np.random.seed(s)
    np.random.random_sample(1)
    other = fn()
    ctx.check(not np.array_equal(other, out[0]),
              'another state of the generator gives another result')
    return out[0]


@C25.case(96)
def covariances(ctx):
    cplx, unit = ctx.cyc((False, True), (False, True))
    p = ctx.integers(2, 12)
    if unit and not cplx and ctx.index < 4:
        p = 420     # the determinant underflows
    f = G.generate_complex_covariance if cplx else G.generate_covariance
    S = seeded(ctx, lambda: f(p, unit_det=unit) if unit or ctx.index % 2
               else f(p))
    ctx.check(S.shape == (p, p), 'requested size', got=S.shape)
    ctx.check(S.dtype == (complex if cplx else float), 'type')
    n = np.linalg.norm(S)
    ctx.small(np.linalg.norm(S-S.conj().T)/n, 1e-13, 'Hermitian')
    e = np.linalg.eigvalsh(gen.herm_part(S))
    ctx.check(e[0] > -1e-14*n, 'positive', e=e)
    if e[0] > 1e-13*n:
        ctx.event('numerically definite covariances')
    if unit:
        ctx.small(np.linalg.slogdet(S)[1], 1e-6 + 1e-14*p*n/abs(e[0]),
                  'unit determinant', p=p)
    else:
        ctx.check(abs(np.linalg.slogdet(S)[1]) > 1e-7,
                  'determinant normalised without being asked', p=p)
    if cplx:
        ctx.check(np.abs(S.imag).max() > 0, 'really complex')
        if not unit:
            ctx.check(e[0] > 1-1e-10 and e[-1] < 2+1e-10,
                      'eigenvalues between 1 and 2', e=e)
    ctx.sig('covariance', p, cplx, unit)


def tail(ctx, x, law, what):
    """One draw of a law, not absurdly far in its tails."""
    pv = 2*min(law.cdf(x), law.sf(x))
    ctx.check(pv > 1e-11, what, value=float(x), pvalue=float(pv))


@C25.case(96)
def stiefel(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p = ctx.integers(2, 12) if ctx.integers(0, 2) else ctx.integers(13, 70)
    k = ctx.integers(1, p)
    f = G.generate_complex_stiefel if cplx else G.generate_stiefel
    U = seeded(ctx, lambda: f(p, k))
    ctx.check(U.shape == (p, k), 'requested size', got=U.shape)
    ctx.small(U.conj().T@U-np.eye(k), 1e-12, 'orthonormal columns')
    ctx.check(np.iscomplexobj(U) == cplx, 'type')
    # each column is uniform on the sphere: so are its halves
    j = ctx.integers(0, k-1)
    d = U[:, j]
    e = np.sum(np.abs(d[:p//2])**2)
    c = 1. if cplx else .5
    tail(ctx, e, stats.beta(c*(p//2), c*(p-p//2)), 'energy of half a column')
    if cplx:
        tail(ctx, np.sum(d.imag**2), stats.beta(p/2, p/2),
             'energy of the imaginary part')
    ctx.sig('stiefel', p, k, cplx)


@C25.case(32)
def haar(ctx):
    """Uniformity: the image of a fixed direction has the uniform law."""
    cplx = bool(ctx.cyc((0, 1)))
    p, k, m = ctx.integers(2, 4), 1, 700
    if ctx.index % 8 > 5:
        p = ctx.integers(12, 36)
    k = ctx.integers(1, p)
    f = G.generate_complex_stiefel if cplx else G.generate_stiefel
    U = np.array([f(p, k) for _ in range(m)])
    i, j = ctx.integers(0, p-1), ctx.integers(0, k-1)
    x = np.abs(U[:, i, j])**2
    law = stats.beta(1., p-1.) if cplx else stats.beta(.5, (p-1)/2)
    pv = stats.kstest(x, law.cdf).pvalue
    ctx.check(pv > PMIN, 'uniform orientation', pvalue=pv, p=p, k=k)
    # invariance by rotations and phases: moments of the whole matrix
    moments(ctx, U.reshape(m, -1)*np.sqrt(p), 'uniform matrices', p=p, k=k)
    ctx.sig('haar', p, k, cplx)


def moments(ctx, V, what, **kw):
    """Rows of V: independent draws of a vector of zero mean, identity
    covariance, and (if complex) circular; bounded by eight deviations."""
    m, d = V.shape
    z = 8*np.sqrt(2/m)
    ctx.small(np.abs(V.mean(0)), 8/np.sqrt(m), f'{what}: zero mean', **kw)
    ctx.small(np.abs(V.T@V.conj()/m-np.eye(d)), 1.5*z, f'{what}: covariance '
              'of all the entries', **kw)
    if np.iscomplexobj(V):
        ctx.small(np.abs(V.T@V/m), 1.5*z, f'{what}: circularity of all the '
                  'entries', **kw)
    ctx.event('arrays in moments', m)


@C25.case(48)
def all_entries(ctx):
    """Joint second-order moments of whole arrays of samples, over draws:
    no dependence between any two samples, real or imaginary parts."""
    cplx, kind = ctx.cyc((False, True), ('standard', 'normal', 'compound',
                                         'low rank'))
    p, n, m = ctx.integers(1, 3), ctx.integers(2, 7), 1500
    k = ctx.integers(1, p)
    C = gen.spd(ctx.rng, p, cplx, 20.)
    U = gen.randn(ctx.rng, (p, k), cplx)
    t = 10.**ctx.rng.uniform(-2, 2, n)
    V = C
    if kind == 'standard':
        f = G.sample_complex_standard_normal_distribution if cplx else \
            G.sample_standard_normal_distribution
        draw, V, s = (lambda: f(p, n)), np.eye(p), np.ones(n)
    elif kind == 'normal':
        f = G.sample_complex_normal_distribution if cplx else \
            G.sample_normal_distribution
        draw, s = (lambda: f(n, C)), np.ones(n)
    elif kind == 'compound':
        f = G.sample_complex_compound_distribution if cplx else \
            G.sample_compound_distribution
        draw, s = (lambda: f(t, C)), t
    else:
        f = G.sample_complex_tau_UUH_distribution if cplx else \
            G.sample_tau_UUH_distribution
        draw, s = (lambda: f(t, U)), None
    np.random.seed(ctx.integers(0, 2**31))
    X = np.array([draw() for _ in range(m)])
    for i in range(n):
        W = gen.powm(np.eye(p)+t[i]*U@U.conj().T if s is None else s[i]*V,
                     -.5)
        X[:, :, i] = X[:, :, i]@W.T
    moments(ctx, X.reshape(m, -1), kind, p=p, n=n)
    ctx.sig('all entries', kind, cplx, p, n)


@C25.case(64)
def textures(ctx):
    n = ctx.pick((500, 4000))
    which = ctx.cyc(('gamma', 'gamma default', 'lognormal',
                     'lognormal default'))
    if which.startswith('gamma'):
        nu = .1 if 'default' in which else ctx.pick(
            (.02, .05, .3, 1., 2.5, 20.))
        t = seeded(ctx, lambda: G.generate_textures_gamma_dist(n)
                   if 'default' in which else
                   G.generate_textures_gamma_dist(n, nu))
        law = stats.gamma(nu, scale=1/nu)
    else:
        v = 2.4 if 'default' in which else ctx.pick(
            (.1, .7, 4., 6., 9.))
        t = seeded(ctx, lambda: G.generate_textures_lognormal_dist(n)
                   if 'default' in which else
                   G.generate_textures_lognormal_dist(n, v))
        law = stats.lognorm(s=np.sqrt(v), scale=np.exp(-v/2))
        ctx.check(np.all(t > 0), 'positive textures')
    ctx.check(t.shape == (n, 1), 'one texture per sample', got=t.shape)
    ctx.check(np.all(t >= 0) and np.all(np.isfinite(t)), 'textures')
    pv = stats.kstest(t[:, 0], law.cdf).pvalue
    ctx.check(abs(law.mean()-1) < 1e-9, 'reference has unit mean')
    ctx.check(pv > PMIN, 'law of the textures: unit mean, requested spread',
              pvalue=pv, which=which)
    if 'default' in which:
        s = ctx.integers(0, 2**31)
        out = []
        for args in ((n,), (n, nu) if which.startswith('gamma') else (n, v)):
            np.random.seed(s)
            out.append((G.generate_textures_gamma_dist
                        if which.startswith('gamma') else
                        G.generate_textures_lognormal_dist)(*args))
        ctx.equal(out[0], out[1], 'default spread of the textures')
    ctx.event('textures tested', n)
    ctx.sig('textures', which, n, law.args, tuple(law.kwds.items()))


def second_order(ctx, X, C, what, **kw):
    """Samples in columns: covariance C, circular (if complex), Gaussian and
    independent along the columns."""
    p, n = X.shape
    W = gen.powm(C, -.5)
    Y = W@X
    S = Y@Y.conj().T/n
    # entries have variance 1/n (2/n on the diagonal in the real case)
    z = 8*np.sqrt(2/n)
    ctx.small(np.abs(S-np.eye(p)), z, f'{what}: covariance', **kw)
    ctx.small(np.abs(Y.mean(1)), 8/np.sqrt(n), f'{what}: zero mean', **kw)
    if np.iscomplexobj(X):
        ctx.small(np.abs(Y@Y.T/n), z, f'{what}: circular', **kw)
    lag = Y[:, 1:]@Y[:, :-1].conj().T/n
    ctx.small(np.abs(lag), z, f'{what}: independent samples', **kw)
    q = np.sum(np.abs(Y)**2, axis=0)
    law = stats.gamma(p) if np.iscomplexobj(X) else stats.chi2(p)
    pv = stats.kstest(q, law.cdf).pvalue
    ctx.check(pv > PMIN, f'{what}: Gaussian', pvalue=pv, **kw)
    ctx.event('samples tested', n)


@C25.case(48)
def standard(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p, n = ctx.integers(1, 5), 4000
    f = G.sample_complex_standard_normal_distribution if cplx else \
        G.sample_standard_normal_distribution
    X = seeded(ctx, lambda: f(p, n))
    ctx.check(X.shape == (p, n), 'shape', got=X.shape)
    second_order(ctx, X, np.eye(p), 'standard')
    ctx.sig('standard', p, cplx)


@C25.case(64)
def normal(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p, n = ctx.integers(1, 5), 4000
    C = gen.spd(ctx.rng, p, cplx, ctx.pick((1.5, 50., 1e4)),
                10.**ctx.rng.uniform(-4, 4))
    f = G.sample_complex_normal_distribution if cplx else \
        G.sample_normal_distribution
    X = seeded(ctx, lambda: f(n, frozen(C)))
    ctx.check(X.shape == (p, n) and np.iscomplexobj(X) == cplx, 'shape')
    second_order(ctx, X, C, 'normal', p=p)
    ctx.raises(AssertionError, lambda: f(n, C.astype(
        float if cplx else complex)), 'covariance of the other field')
    ctx.sig('normal', p, cplx)


def tau(ctx, n):
    kind = ctx.pick(('ones', 'two', 'gamma', 'wide'))
    t = {'ones': np.ones(n), 'two': np.where(np.arange(n) % 2, 100., .01),
         'gamma': ctx.rng.gamma(.7, 1/.7, n)+1e-9,
         'wide': 10.**ctx.rng.uniform(-3, 3, n)}[kind]
    return kind, t.reshape(-1, 1) if ctx.integers(0, 1) else t


@C25.case(64)
def compound(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p, n = ctx.integers(1, 5), 4000
    C = gen.spd(ctx.rng, p, cplx, 20., 10.**ctx.rng.uniform(-2, 2))
    kind, t = tau(ctx, n)
    f = G.sample_complex_compound_distribution if cplx else \
        G.sample_compound_distribution
    X = seeded(ctx, lambda: f(frozen(t), frozen(C)))
    ctx.check(X.shape == (p, n) and np.iscomplexobj(X) == cplx, 'shape')
    second_order(ctx, X/np.sqrt(t.ravel()), C, 'compound', tau=kind)
    ctx.sig('compound', p, cplx, kind, t.ndim)


@C25.case(64)
def low_rank(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    p = ctx.integers(2, 6)
    k, n = ctx.integers(1, p), 4000
    U = gen.unitary(ctx.rng, p, cplx)[:, :k]
    if ctx.integers(0, 1):
        U = gen.randn(ctx.rng, (p, k), cplx)
    U = U.astype(complex) if cplx else U
    kind, t = tau(ctx, n)
    f = G.sample_complex_tau_UUH_distribution if cplx else \
        G.sample_tau_UUH_distribution
    X = seeded(ctx, lambda: f(frozen(t), frozen(U)))
    ctx.check(X.shape == (p, n) and np.iscomplexobj(X) == cplx, 'shape')
    # whiten each sample by its own covariance tau U U^H + I
    e, v = np.linalg.eigh(gen.herm_part(U@U.conj().T))
    g = (1+np.outer(np.maximum(e, 0), t.ravel()))**-.5
    Y = v@(g*(v.conj().T@X))
    second_order(ctx, Y, np.eye(p), 'tau UU^H + I', tau=kind, k=k)
    ctx.sig('low rank', p, k, cplx, kind)


# ---------------------------------------------------------------------------
C26 = Prop('C26', 'distinct (program of draws, nesting, exit, prior state) '
           'whose draws were compared with those of private generators',
           scale=8)


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def draws(ctx, r, kind, n):
    """The same draws from the module or from a private generator."""
    return {'rand': lambda: r.rand(n), 'randn': lambda: r.randn(n),
            'gauss': lambda: r.standard_normal(n),
            'int': lambda: r.randint(0, 1000, n),
            'perm': lambda: r.permutation(n),
            'gamma': lambda: r.gamma(.7, size=n)}[kind]()


KINDS = ('rand', 'randn', 'gauss', 'int', 'perm', 'gamma')


class Tracker:
    """The global generator and its model, kept in step."""

    def __init__(self, ctx, model):
        self.ctx, self.model = ctx, model

    def draw(self, model=None, times=None):
        c = self.ctx
        m = self.model if model is None else model
        for _ in range(times or c.integers(0, 3)):
            k, n = c.pick(KINDS), c.integers(1, 3)
            c.equal(draws(c, np.random, k, n), draws(c, m, k, n),
                    'draws of the global generator', kind=k)
            c.event('draws compared')


SEEDS = (0, 1, 42, 123456789, 2**32-1, None)


def block(ctx, tr, depth, trail):
    """One temporary seed block, recursively; returns how it exited."""
    seed = ctx.pick(SEEDS[:-1]+([3, 4], np.array([1, 2, 3]), np.int64(5)))
    how = ctx.pick(('normal', 'normal', 'Boom', 'Stop', 'KeyboardInterrupt',
                    'SystemExit', 'GeneratorExit', 'StopIteration',
                    'return', 'reseed', 'set_state'))
    trail.append((repr(seed), how))
    exc = {'Boom': Boom('x', 3), 'Stop': Stop(), 'StopIteration':
           StopIteration(7), 'KeyboardInterrupt': KeyboardInterrupt(),
           'SystemExit': SystemExit(3),
           'GeneratorExit': GeneratorExit()}.get(how)
    inner = np.random.RandomState(seed)

    def body():
        with temp_seed(seed):
            tr.draw(inner, ctx.integers(0, 3))
            if depth and ctx.rng.rand() < .6:
                for _ in range(ctx.integers(1, 2)):
                    block(ctx, Tracker(ctx, inner), depth-1, trail)
                    tr.draw(inner, 1)
            if how == 'reseed':
                np.random.seed(99)
            if how == 'set_state':
                np.random.set_state(np.random.RandomState(5).get_state())
                np.random.randn(1)
            if exc is not None:
                raise exc
            if how == 'return':
                return 'value'
        return None
    try:
        back = body()
        ctx.check(exc is None, 'the exception is not swallowed', how=how)
        ctx.check(back == ('value' if how == 'return' else None), 'return')
    except BaseException as e:
        if type(e).__name__ in ('Violation', 'TaskTimeout', 'Skip') and \
                e is not exc:
            raise
        # a StopIteration leaving a generator based manager must not turn
        # into anything else
        ctx.check(e is exc, 'the exception propagates unchanged',
                  got=repr(e), raised=repr(exc))
        ctx.check(e.args == exc.args, 'arguments of the exception')
        ctx.event('exits by exception')
    ctx.event('blocks observed')


def prepare(ctx):
    """A prior state, with or without a cached Gaussian."""
    s = ctx.integers(0, 2**32-1)
    np.random.seed(s)
    m = np.random.RandomState(s)
    pre = ctx.pick(('fresh', 'cached', 'drawn', 'mid', 'state'))
    if pre == 'cached':
        ctx.equal(np.random.randn(1), m.randn(1), 'model in step')
    elif pre == 'drawn':
        ctx.equal(np.random.rand(1000), m.rand(1000), 'model in step')
    elif pre == 'mid':
        ctx.equal(np.random.randn(7), m.randn(7), 'model in step')
    elif pre == 'state':
        st = list(np.random.RandomState(3).get_state())
        st[2], st[3], st[4] = 623, 1, .25
        np.random.set_state(tuple(st))
        m.set_state(tuple(st))
    return m, pre


@C26.case(600)
def programs(ctx):
    m, pre = prepare(ctx)
    tr = Tracker(ctx, m)
    trail = []
    tr.draw()
    for _ in range(ctx.integers(1, 4)):
        block(ctx, tr, 2, trail)
        a, b = np.random.get_state(), m.get_state()
        ctx.check(a[0] == b[0] and np.array_equal(a[1], b[1]) and
                  a[2:] == b[2:], 'state on exit is the state on entry',
                  trail=trail, pre=pre)
        tr.draw(times=2)
    ctx.sig(pre, trail)
    ctx.sample(prior=pre, blocks=trail)


@C26.case(200)
def cached_gaussian(ctx):
    """The second Gaussian of a pair survives, in and out of the block."""
    s = ctx.integers(0, 2**31)
    k = ctx.integers(0, 3)
    m = np.random.RandomState(s)
    np.random.seed(s)
    ctx.equal(np.random.randn(k), m.randn(k), 'before')
    with temp_seed(7):
        ctx.equal(np.random.randn(3), np.random.RandomState(7).randn(3),
                  'inside: no Gaussian left from outside')
    ctx.equal(np.random.randn(3), m.randn(3), 'after')
    ctx.sig('gaussian', k, s)


@C26.case(100)
def as_decorator_and_stack(ctx):
    """Other ways to use a context manager."""
    m, pre = prepare(ctx)
    how = ctx.cyc(('stack', 'generator', 'instances', 'twice', 'decorator'))
    want = np.random.RandomState(11).rand(2)
    if how == 'stack':
        with contextlib.ExitStack() as st:
            st.enter_context(temp_seed(3))
            st.enter_context(temp_seed(11))
            ctx.equal(np.random.rand(2), want, 'stream of the inner seed')
    elif how == 'generator':
        def g():
            with temp_seed(11):
                yield np.random.rand(2)
                yield np.random.rand(2)
        it = g()
        ctx.equal(next(it), want, 'stream of the seed')
        it.close()
    elif how == 'instances':
        a, b = temp_seed(11), temp_seed(3)
        with b:
            np.random.rand(1)
        with a:
            ctx.equal(np.random.rand(2), want, 'created before use')
    elif how == 'twice':
        for _ in range(3):
            with temp_seed(11):
                ctx.equal(np.random.rand(2), want, 'same stream every time')
            ctx.equal(np.random.rand(1), m.rand(1), 'between the blocks')
    else:
        @temp_seed(11)
        def f():
            return np.random.rand(2)
        for _ in range(2):
            ctx.equal(f(), want, 'decorated function')
    ctx.equal(np.random.randn(3), m.randn(3), 'after the block', how=how)
    ctx.sig(how, pre)


@C26.case(60)
def invalid_seeds(ctx):
    """A seed that numpy refuses: the generator is as before."""
    m, pre = prepare(ctx)
    bad = ctx.cyc((-1, 2**32, 'abc', 1.5, [-1]))
    ran = []

    def run():
        with temp_seed(bad):
            ran.append(1)
    ctx.raises((ValueError, TypeError), run, 'invalid seed', seed=bad)
    ctx.check(not ran, 'the block does not run')
    ctx.equal(np.random.randn(3), m.randn(3), 'generator after the refusal')
    ctx.sig('invalid', bad, pre)


@C26.case(60)
def unseeded(ctx):
    """temp_seed(None): fresh entropy inside, nothing outside."""
    m, pre = prepare(ctx)
    out = []
    for _ in range(2):
        with temp_seed(None):
            out.append(np.random.rand(4))
    ctx.check(not np.array_equal(*out), 'fresh entropy')
    ctx.equal(np.random.randn(3), m.randn(3), 'generator after the block')
    ctx.sig('none', pre)


PROPS = {'C24': C24, 'C25': C25, 'C26': C26}
