"""C10-C13: representations, densities, random generators, Tyler's cost."""
import autograd
import numpy as np
from scipy import stats
from scipy.special import gammaln, ndtr

from .. import gen
from ..core import Prop
from ..lib import (mappings, probability, TYLER, TYLER_COST, cost, frozen,
                   log_records)

CPLX = (False, True)
N = probability.complex_multivariate_normal
T = probability.complex_multivariate_t


# ===========================================================================
C10 = Prop('C10', 'random complex vectors, data sets, covariances and stacks '
           'over magnitudes, memory layouts and precisions; non-trivial = '
           'non-zero imaginary part', ['finite entries, no subnormals'],
           scale=90)


def relayout(ctx, a):
    """The same values in another memory layout."""
    kind = ctx.pick(('c', 'fortran', 'strided', 'reversed', 'readonly'))
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.repeat(a, 2, axis=-1)
        return b[..., ::2]
    if kind == 'reversed':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if kind == 'readonly':
        return frozen(a)
    return a.copy()


def magnitudes(ctx, shape):
    a = gen.randn(ctx.rng, shape, True)
    how = ctx.pick(('unit', 'wide', 'zeros', 'integers'))
    if how == 'wide':
        a = a*10.**ctx.rng.uniform(-150, 150, shape)
    elif how == 'zeros':
        a = a*ctx.rng.randint(0, 2, shape) + 0j
        a.imag[ctx.rng.rand(*shape) < .4] = 0
    elif how == 'integers':
        a = ctx.rng.randint(-5, 6, shape) + 1j*ctx.rng.randint(-5, 6, shape)
    return a


def empty(ctx, p):
    """No sample, or no matrix."""
    a = np.zeros((0, p), complex)
    ctx.equal(mappings.arraytocomplex(mappings.arraytoreal(a)), a,
              'round trip of zero samples')
    ctx.check(mappings.arraytoreal(a).shape == (0, 2*p), 'zero samples')
    C = np.zeros((0, p, p), complex)
    R = mappings.covariancestoreal(C)
    ctx.check(R.shape == (0, 2*p, 2*p) and np.isrealobj(R), 'empty stack')
    ctx.equal(mappings.covariancestocomplex(R), C, 'round trip of an empty '
              'stack')


@C10.case(quick=60)
def arrays(ctx):
    ndim, single = ctx.cyc((1, 2), (False, True))
    p, n = ctx.integers(1, 9), ctx.integers(1, 12)
    if ctx.integers(0, 9) == 0:     # sizes out of the ordinary
        p, n = ctx.pick(((1, 5000), (300, 3), (64, 64), (17, 1500), (2, 1)))
    shape = (p,) if ndim == 1 else (n, p)
    if ndim == 2 and ctx.integers(0, 19) == 0:
        empty(ctx, p)
    a = magnitudes(ctx, shape)
    if single:
        a = (a/max(1., np.abs(a).max())).astype(np.complex64)
    a = relayout(ctx, a)
    keep = a.copy()
    r = mappings.arraytoreal(a)
    ctx.check(r.shape == shape[:-1]+(2*p,), 'shape of the real equivalent')
    ctx.equal(r[..., :p], a.real, 'first half is not the real part')
    ctx.equal(r[..., p:], a.imag, 'second half is not the imaginary part')
    c = mappings.arraytocomplex(r)
    ctx.equal(c, a, 'round trip changed the array')
    r2 = relayout(ctx, r)
    ctx.equal(mappings.arraytoreal(mappings.arraytocomplex(r2)), r,
              'round trip from the real side changed the array')
    ctx.equal(mappings.arraytoreal(r), r, 'real input was changed')
    ctx.equal(mappings.arraytocomplex(a), a, 'complex input was changed')
    ctx.equal(a, keep, 'input modified in place')
    # single rows and full arrays are mapped alike
    if ndim == 2:
        for i in range(n) if n < 20 else (0, n//2, n-1):
            ctx.equal(mappings.arraytoreal(a[i]), r[i], 'row alone differs')
    # lengths and inner products correspond
    if not single:
        b = gen.randn(ctx.rng, shape, True)
        s = np.abs(a).max()
        if s > 0:
            ip = np.real(np.sum((a/s)*b.conj()))
            ctx.small(abs(np.sum(mappings.arraytoreal(a/s) *
                                 mappings.arraytoreal(b))-ip), 1e-12*(
                n*p+1), 'inner product is not preserved')
    if np.any(a.imag != 0):
        ctx.sig(shape, single, complex(a.flat[0]))
    ctx.sample(shape=shape, dtype=str(a.dtype))


def block_equivalent(C):
    return np.block([[C.real, -C.imag], [C.imag, C.real]])/2


@C10.case(quick=60)
def covariances(ctx):
    stacked, kind = ctx.cyc((False, True), ('hpd', 'hermitian', 'any',
                                            'wide'))
    p, k = ctx.integers(1, 7), ctx.integers(1, 5)
    if ctx.integers(0, 15) == 0:    # sizes out of the ordinary
        p, k = ctx.pick(((1, 700), (2, 300), (40, 3), (120, 1), (6, 101)))

    def one():
        if kind == 'hpd':
            return gen.spd(ctx.rng, p, True, 50.)
        if kind == 'hermitian':
            return gen.herm(ctx.rng, p, True)
        return magnitudes(ctx, (p, p)) if kind == 'wide' else gen.randn(
            ctx.rng, (p, p), True)
    C = np.array([one() for _ in range(k)]).astype(complex)
    if ctx.integers(0, 5) == 0 and kind != 'wide':
        C = C.astype(np.complex64)
    each = [mappings.covariancetoreal(c) for c in C]
    for c, r in list(zip(C, each))[:9]:
        ctx.equal(r, block_equivalent(c), 'not half of the block matrix')
        ctx.equal(mappings.covariancetocomplex(r), c,
                  'round trip changed the matrix')
        ctx.equal(mappings.covariancetoreal(relayout(ctx, c)), r,
                  'depends on the memory layout')
        ctx.equal(mappings.covariancetocomplex(relayout(ctx, r)), c,
                  'depends on the memory layout')
        ctx.equal(mappings.covariancetocomplex(c), c, 'complex input changed')
        ctx.equal(mappings.covariancetoreal(r), r, 'real input changed')
    if stacked:
        S = relayout(ctx, C)
        R = mappings.covariancestoreal(S)
        ctx.equal(R, np.array(each), 'stack differs from single matrices')
        ctx.equal(mappings.covariancestocomplex(relayout(ctx, R)), C,
                  'round trip changed the stack')
        ctx.equal(mappings.covariancestoreal(R), R, 'real stack changed')
        ctx.equal(mappings.covariancestocomplex(C), C,
                  'complex stack changed')
    if np.any(C.imag != 0):
        ctx.sig(kind, stacked, p, k, complex(C.flat[-1]))


@C10.case(quick=64, thorough=96)
def every_size(ctx):
    """One size after the other, and as many samples or matrices."""
    p = ctx.index % 96+1
    a = gen.randn(ctx.rng, (p,), True)
    X = gen.randn(ctx.rng, (ctx.integers(1, 40), p), True)
    Z = gen.randn(ctx.rng, (p, 3), True)
    for x in (a, X, Z):
        r = mappings.arraytoreal(x)
        ctx.equal(r, np.concatenate([x.real, x.imag], -1), 'not the parts')
        ctx.equal(mappings.arraytocomplex(r), x, 'round trip changed it')
    C = gen.randn(ctx.rng, (p, p), True)
    H = gen.herm(ctx.rng, p, True)
    for c in (C, H):
        r = mappings.covariancetoreal(c)
        ctx.equal(r, block_equivalent(c), 'not half of the block matrix')
        ctx.equal(mappings.covariancetocomplex(r), c, 'round trip changed it')
    S = gen.randn(ctx.rng, (p, 4, 4), True)
    T = np.array([C, H])
    for c in (S, T):
        R = mappings.covariancestoreal(c)
        for i in range(len(c)):
            ctx.equal(R[i], block_equivalent(c[i]), 'not half of the block '
                      'matrix', i=i)
        ctx.equal(mappings.covariancestocomplex(R), c,
                  'round trip changed the stack')
    ctx.check(mappings.check_Hermitian(H), 'Hermitian matrix not recognised')
    ctx.sig('size', p)


@C10.case(quick=40)
def algebra(ctx):
    p = ctx.integers(1, 7)
    A, B = gen.spd(ctx.rng, p, True, 30.), gen.spd(ctx.rng, p, True, 30.)
    x = gen.randn(ctx.rng, (6, p), True)
    ra, rb = mappings.covariancetoreal(A), mappings.covariancetoreal(B)
    rx = mappings.arraytoreal(x)
    # twice the equivalent is a ring homomorphism
    ctx.close(mappings.covariancetocomplex(2*ra@rb), A@B, 1e-11,
              'product of equivalents')
    ctx.close(mappings.covariancetocomplex(np.linalg.inv(ra)/4),
              np.linalg.inv(A), 1e-9, 'inverse of equivalents')
    ctx.close(rx@ra.T*2, mappings.arraytoreal(x@A.T), 1e-11,
              'matrix vector product')
    ctx.close(gen.quad(rx, ra), 2*gen.quad(x, A), 1e-9, 'quadratic forms')
    ctx.close(np.linalg.eigvalsh(ra)[::2]*2, np.linalg.eigvalsh(A), 1e-9,
              'spectrum is not doubled')
    ctx.check(mappings.check_Symmetric(ra), 'equivalent is not symmetric')
    ctx.check(mappings.check_Hermitian(
        mappings.covariancetocomplex(ra)), 'not Hermitian any more')
    # covariance of the real equivalent of circular data
    X = x-x.mean(0)
    Y = np.vstack([X, 1j*X])
    R = mappings.arraytoreal(Y)
    ctx.close(mappings.covariancetocomplex(R.T@R/len(R)), X.T@X.conj()/len(
        X), 1e-10, 'second order moments do not correspond')
    ctx.sig(p, complex(A[0, -1]))


@C10.case(quick=60)
def rejected(ctx):
    which = ctx.index % 12
    p = ctx.integers(1, 5)
    z = lambda *s: gen.randn(ctx.rng, s, True)          # noqa: E731
    r = lambda *s: ctx.rng.randn(*s)                    # noqa: E731
    bad = [
        lambda: mappings.arraytoreal(z(2, p, 3)),
        lambda: mappings.arraytoreal(np.array(1+2j)),
        lambda: mappings.arraytocomplex(r(2*p-1)),
        lambda: mappings.arraytocomplex(r(3, 2*p+1)),
        lambda: mappings.arraytocomplex(r(3, 2, 2*p)),
        lambda: mappings.covariancetoreal(z(p, p+1)),
        lambda: mappings.covariancetoreal(z(p)),
        lambda: mappings.covariancetoreal(z(2, p, p)),
        lambda: mappings.covariancetocomplex(r(2*p+1, 2*p+1)),
        lambda: mappings.covariancetocomplex(r(2*p, 2*p+2)),
        lambda: mappings.covariancestoreal(z(p, p)),
        lambda: mappings.covariancestocomplex(r(3, 2*p+1, 2*p+1)),
    ]
    ctx.raises(AttributeError, bad[which],
               f'unsupported input number {which} was not rejected', p=p)
    more = [lambda: mappings.covariancestocomplex(r(2*p, 2*p)),
            lambda: mappings.covariancestoreal(z(2, p, p+1)),
            lambda: mappings.covariancestocomplex(r(2, 2*p, 2*p+2))]
    ctx.raises(AttributeError, more[ctx.index % 3],
               f'unsupported stack number {ctx.index % 3} was not rejected')
    ctx.sig(which, p)


@C10.case(quick=60)
def hermitian_checks(ctx):
    cplx, spoil, tolerances = ctx.cyc(
        CPLX, ('none', 'entry', 'diagonal', 'small', 'transpose'),
        ('default', 'custom'))
    p = ctx.integers(2, 7)
    A = gen.herm(ctx.rng, p, cplx)
    A = A + np.sign(A.real)*.5     # entries away from zero
    A = gen.herm_part(A)
    kw, rtol, atol = {}, 1e-5, 1e-8
    if tolerances == 'custom':
        rtol, atol = 10.**ctx.rng.uniform(-9, -2), 10.**ctx.rng.uniform(
            -9, -2)
        kw = dict(rtol=rtol, atol=atol)
    i, j = ctx.rng.choice(p, 2, replace=False)
    tol = atol+rtol*abs(A[i, j])
    expect = True
    if spoil == 'entry':
        A[i, j] += ctx.pick((4, 1000))*tol*(ctx.pick((1, -1, 1j)) if cplx
                                            else ctx.pick((1, -1)))
        expect = False
    elif spoil == 'small':
        A[i, j] += .3*tol
    elif spoil == 'diagonal' and cplx:
        A[i, i] += 2j*(atol+rtol*abs(A[i, i]))
        expect = False
    elif spoil == 'transpose' and cplx:
        A = A.real + 1j*np.abs(A.real)
        A = (A+A.T)/2       # complex symmetric, not Hermitian
        expect = False
        ctx.check(mappings.check_Symmetric(A, **kw),
                  'complex symmetric matrix not recognised')
    got = mappings.check_Hermitian(relayout(ctx, A), **kw)
    ctx.check(bool(got) == expect, 'check_Hermitian is wrong', spoil=spoil,
              rtol=rtol, atol=atol)
    if not cplx:
        ctx.check(bool(mappings.check_Symmetric(A, **kw)) == expect,
                  'check_Symmetric is wrong', spoil=spoil)
    elif spoil == 'none':
        ctx.check(not mappings.check_Symmetric(A+1j*np.triu(
            np.ones((p, p)), 1), **kw), 'asymmetric matrix accepted')
    ctx.check(mappings.iscovariance(A), 'square matrix refused')
    ctx.check(not mappings.iscovariance(A[:-1]) and
              not mappings.iscovariance(A[0]) and
              not mappings.iscovariance(A[None]),
              'non square array taken as covariance')
    ctx.sig(cplx, spoil, tolerances, p, expect)


# ===========================================================================
C11 = Prop('C11', 'random parameters (complex/real location x matrix x '
           'points, p, magnitudes) x interface; non-trivial = non-diagonal '
           'matrix or non-zero location', ['moderately conditioned matrices'],
           scale=60)


def ref_normal(x, m, S):
    p = len(S)
    q = gen.quad(np.atleast_2d(x-m), S)
    return -q-p*np.log(np.pi)-np.linalg.slogdet(S)[1]


def ref_t(x, m, S, df):
    p = len(S)
    q = gen.quad(np.atleast_2d(x-m), S)
    return gammaln(df/2+p)-gammaln(df/2)-p*np.log(df*np.pi/2) - \
        np.linalg.slogdet(S)[1]-(df/2+p)*np.log1p(2*q/df)


def parameters(ctx, kind, p):
    s = 10.**ctx.integers(-3, 3)
    S = gen.spd(ctx.rng, p, 'S' in kind, 20., s)
    if kind.startswith('0'):
        return None, S
    m = gen.randn(ctx.rng, (p,), 'M' in kind)*np.sqrt(s)*ctx.pick((1., 10.))
    return m, S


KINDS = ('MS', 'mS', 'Ms', '0S')


def points(ctx, m, S, n, real=False):
    p = len(S)
    x = gen.samples(ctx.rng, n, p, not real, ctx.pick(('gauss', 't')),
                    root=np.linalg.cholesky(np.real(S) if real else
                                            S.astype(complex)))
    x = x + (0 if m is None else (m.real if real else m))
    return x


@C11.case(quick=64)
def complex_normal(ctx):
    kind, iface, real, shape = ctx.cyc(
        KINDS, ('generic', 'frozen'), (False, True), ('set', 'point'))
    p = ctx.integers(1, 5)
    m, S = parameters(ctx, kind, p)
    x = points(ctx, m, S, ctx.integers(1, 8), real)
    if shape == 'point':
        x = x[0]
    ref = ref_normal(x, 0 if m is None else m, S)
    d = N if iface == 'generic' else N(m, S)
    a = (m, S) if iface == 'generic' else ()
    lp, pdf = d.logpdf(x, *a), d.pdf(x, *a)
    scale = 1+np.abs(ref)
    ctx.check(np.isrealobj(lp) and np.isrealobj(pdf), 'density not real')
    if shape == 'set' and len(x) > 1:
        ctx.check(np.shape(lp) == (len(x),), 'shape of logpdf')
    ctx.small((np.atleast_1d(lp)-ref)/scale, 1e-8,
              'logpdf is not the circular closed form', kind=kind,
              iface=iface, p=p)
    ok = ref > -690
    ctx.small((np.log(np.atleast_1d(pdf)[ok])-ref[ok])/scale[ok], 1e-8,
              'pdf is not the exponential of logpdf', kind=kind, iface=iface)
    h = d.entropy(*a)
    ref = p*np.log(np.pi*np.e)+np.linalg.slogdet(S)[1]
    ctx.small((h-ref)/(1+abs(ref)), 1e-9,
              'entropy is not the circular closed form', kind=kind,
              iface=iface)
    ctx.event('densities judged', len(np.atleast_1d(lp)))
    if p > 1 or m is not None:
        ctx.sig(kind, iface, real, shape, p, float(ref))
    ctx.sample(kind=kind, interface=iface, p=p, real_points=real)


@C11.case(quick=64)
def complex_student(ctx):
    kind, iface, real, shape = ctx.cyc(
        KINDS, ('generic', 'frozen'), (False, True), ('set', 'point'))
    p = ctx.integers(1, 5)
    df = ctx.pick((.7, 1., 3., 12.5, 300., 1.5e5))
    m, S = parameters(ctx, kind, p)
    x = points(ctx, m, S, ctx.integers(1, 8), real)
    if shape == 'point':
        x = x[0]
    ref = ref_t(x, 0 if m is None else m, S, df)
    d = T if iface == 'generic' else T(m, S, df)
    a = (m, S, df) if iface == 'generic' else ()
    lp, pdf = d.logpdf(x, *a), d.pdf(x, *a)
    scale = 1+np.abs(ref)
    ctx.check(np.isrealobj(lp) and np.isrealobj(pdf), 'density not real')
    ctx.small((np.atleast_1d(lp)-ref)/scale, 1e-8,
              'logpdf is not the complex t closed form', kind=kind,
              iface=iface, p=p, df=df)
    ok = ref > -690
    ctx.small((np.log(np.atleast_1d(pdf)[ok])-ref[ok])/scale[ok], 1e-8,
              'pdf is not the exponential of logpdf', kind=kind, iface=iface)
    h = d.entropy(*a)
    # entropy of the equivalent real t law of dimension 2p
    real_h = stats.multivariate_t(np.zeros(2*p), np.eye(2*p)/2,
                                  df).entropy()
    ref = real_h + np.linalg.slogdet(S)[1]
    ctx.small((h-ref)/(1+abs(ref)), 1e-8, 'entropy of the complex t model',
              kind=kind, iface=iface)
    if p > 1 or m is not None:
        ctx.sig(kind, iface, real, shape, p, df, float(ref))


@C11.case(quick=48)
def real_is_scipy(ctx):
    law, iface, kind = ctx.cyc(('normal', 't'), ('generic', 'frozen'),
                               ('ms', '0s', 'scalar'))
    p = ctx.integers(1, 4)
    m, S = parameters(ctx, kind, p) if kind != 'scalar' else (
        None, ctx.rng.uniform(.5, 3))
    x = points(ctx, m, S, 5, True) if kind != 'scalar' else \
        ctx.rng.randn(5)
    df = ctx.pick((.7, 3., 50.))
    mine, ref = (N, stats.multivariate_normal) if law == 'normal' else (
        T, stats.multivariate_t)
    pars = (m, S) if law == 'normal' else (m, S, df)
    a = mine(*pars) if iface == 'frozen' else mine
    b = ref(*pars) if iface == 'frozen' else ref
    ar = () if iface == 'frozen' else pars
    ctx.close(a.logpdf(x, *ar), b.logpdf(x, *ar), 1e-12, 'logpdf', law=law)
    ctx.close(a.pdf(x, *ar), b.pdf(x, *ar), 1e-12, 'pdf', law=law)
    ctx.close(a.entropy(*ar), b.entropy(*ar), 1e-12, 'entropy', law=law)
    if law == 'normal':
        ctx.small(a.cdf(x, *ar)-b.cdf(x, *ar), 5e-4, 'cdf', iface=iface)
        ctx.small(np.exp(a.logcdf(x, *ar))-b.cdf(x, *ar), 5e-4, 'logcdf',
                  iface=iface)
        if iface == 'frozen':
            low = (x[0] if kind != 'scalar' else x.min())-ctx.rng.rand()
            got = a.cdf(x, lower_limit=low)
            ctx.small(got-b.cdf(x, lower_limit=low), 5e-4,
                      'cdf above a lower limit')
    ctx.equal(a.rvs(*ar, size=4, random_state=7),
              b.rvs(*ar, size=4, random_state=7), 'samples')
    if law == 'normal' and kind == 'ms':
        # complex points under real parameters: imaginary part discarded
        z = x + 1j*ctx.rng.randn(*x.shape)
        with log_records() as rec:
            v = a.logpdf(z, *ar)
        ctx.close(v, b.logpdf(x, *ar), 1e-12, 'imaginary part of points')
        ctx.check(rec, 'discarded imaginary part is not logged')
    ctx.sig(law, iface, kind, p)


@C11.case(quick=32)
def distribution_function(ctx):
    """cdf of the joint law of real and imaginary parts."""
    iface, kind, complex_par = ctx.cyc(('generic', 'frozen'), ('p1', 'diag'),
                                       ('matrix', 'location'))
    p = 1 if kind == 'p1' else 2
    s = ctx.rng.uniform(.3, 3., p)
    m = gen.randn(ctx.rng, (p,), True)
    S = np.diag(s).astype(complex if complex_par == 'matrix' else float)
    x = m + gen.randn(ctx.rng, (4, p), True)
    ref = np.prod(ndtr((x-m).real/np.sqrt(s/2)) *
                  ndtr((x-m).imag/np.sqrt(s/2)), axis=1)
    d = N if iface == 'generic' else N(m, S)
    a = (m, S) if iface == 'generic' else ()
    ctx.small(d.cdf(x, *a)-ref, 5e-4, 'cdf of real and imaginary parts',
              iface=iface, kind=kind)
    ctx.small(np.exp(d.logcdf(x, *a))-ref, 5e-4, 'logcdf disagrees',
              iface=iface, kind=kind)
    ctx.sig(iface, kind, complex_par, float(ref[0]))


@C11.case(quick=24)
def equivariance(ctx):
    """Change of variables: densities of A x + b."""
    law = ctx.cyc(('normal', 't'))
    p = ctx.integers(1, 4)
    m, S = parameters(ctx, 'MS', p)
    x = points(ctx, m, S, 6)
    A = gen.invertible(ctx.rng, p, True)
    b = gen.randn(ctx.rng, (p,), True)
    f = (lambda x, m, S: N.logpdf(x, m, S)) if law == 'normal' else (
        lambda x, m, S: T.logpdf(x, m, S, 2.5))
    v = f(x@A.T+b, A@m+b, gen.herm_part(A@S@A.conj().T))
    w = f(x, m, S) - 2*np.linalg.slogdet(A)[1]
    ctx.small((v-w)/(1+np.abs(w)), 1e-8, 'density of transformed points')
    # rotations of everything by a phase
    ph = np.exp(2j*np.pi*ctx.rng.rand())
    ctx.small(f(x*ph, m*ph, S)-f(x, m, S), 1e-7*(1+np.abs(w).max()),
              'density is not circular')
    ctx.small(f(x.conj(), m.conj(), S.conj())-f(x, m, S),
              1e-7*(1+np.abs(w).max()), 'density of conjugated points')
    ctx.sig(law, p, float(w[0]))


def real_pair(m, S, p):
    """Location and scatter of the law of (real parts, imaginary parts)."""
    m = np.zeros(p) if m is None else np.atleast_1d(np.asarray(m))
    S = np.asarray(S)
    S = S*np.eye(p) if S.ndim < 2 else S
    return np.concatenate([m.real, m.imag]), block_equivalent(
        S.astype(complex))


def flat_points(x, p):
    x = np.asarray(x, complex).reshape(-1, p)
    return np.concatenate([x.real, x.imag], axis=1)


@C11.case(quick=64)
def parameter_forms(ctx):
    """Scalar and diagonal scatters, nested lists, integers, scalar points
    mean what they mean for the real laws of scipy."""
    law, iface, form, loc = ctx.cyc(
        ('normal', 't'), ('generic', 'frozen'),
        ('scalar', 'vector', 'integers', 'lists', 'default'),
        ('complex', 'real', 'none'))
    p = ctx.integers(1, 4)
    df = ctx.pick((1., 2.5, 40.))
    m = {'complex': gen.randn(ctx.rng, (p,), True), 'none': None,
         'real': ctx.rng.randn(p)}[loc]
    if form in ('scalar', 'vector', 'default') and loc != 'complex':
        m = ctx.rng.randn(p) + 1j*ctx.rng.randint(-1, 2, p)
    if form == 'scalar':
        S = ctx.pick((2, .37, 5.))
    elif form == 'vector':
        S = ctx.rng.uniform(.2, 3., p)
    elif form == 'integers':
        A = ctx.rng.randint(-3, 4, (p, p)) + 1j*ctx.rng.randint(-3, 4, (p, p))
        S = A@A.conj().T + np.eye(p)
        m = ctx.rng.randint(-3, 4, p)
    elif form == 'lists':
        S = gen.spd(ctx.rng, p, True, 10.).tolist()
        m = None if m is None else m.tolist()
    else:
        S = 1
    x = gen.randn(ctx.rng, (ctx.integers(1, 5), p), True)*2
    given = x
    if form == 'lists':
        given = x.tolist()
    elif len(x) == 1 and ctx.index % 2:
        given = x[0]
    mine, ref = (N, stats.multivariate_normal) if law == 'normal' else (
        T, stats.multivariate_t)
    rp = real_pair(m, S, p) + (() if law == 'normal' else (df,))
    pars = (m,) + (() if form == 'default' and law == 'normal' else (S,))
    pars += (() if law == 'normal' else (df,))
    d = mine(*pars) if iface == 'frozen' else mine
    a = () if iface == 'frozen' else pars
    w = ref(*rp).logpdf(flat_points(x, p))
    ctx.close(np.atleast_1d(d.logpdf(given, *a)), np.atleast_1d(w), 1e-9,
              'logpdf depends on the form of the parameters', form=form,
              law=law, iface=iface)
    ctx.close(np.atleast_1d(d.pdf(given, *a)), np.atleast_1d(np.exp(w)),
              1e-9, 'pdf depends on the form of the parameters', form=form,
              law=law, iface=iface)
    ctx.close(d.entropy(*a), ref(*rp).entropy(), 1e-9,
              'entropy depends on the form of the parameters', form=form,
              law=law)
    if law == 'normal' and p == 1:
        ctx.small(d.cdf(given, *a)-ref(*rp).cdf(flat_points(x, p)), 5e-4,
                  'cdf depends on the form of the parameters', form=form)
    ctx.sig(law, iface, form, loc, p)


@C11.case(quick=16)
def default_parameters(ctx):
    """Parameters left out are those of scipy."""
    law, iface = ctx.cyc(('normal', 't'), ('generic', 'frozen'))
    x = ctx.rng.randn(6)*2
    m, S = ctx.rng.randn(), ctx.rng.uniform(.3, 4)
    mine, ref = (N, stats.multivariate_normal) if law == 'normal' else (
        T, stats.multivariate_t)
    names = ('mean', 'cov') if law == 'normal' else ('loc', 'shape')
    for kw in ({}, {names[1]: S}, {names[0]: m}, {names[0]: m, names[1]: S}):
        a = mine(**kw) if iface == 'frozen' else mine
        b = ref(**kw) if iface == 'frozen' else ref
        k = {} if iface == 'frozen' else kw
        for f in ('logpdf', 'pdf') + (('cdf', 'logcdf') if law == 'normal'
                                      else ()):
            ctx.close(getattr(a, f)(x, **k), getattr(b, f)(x, **k), 1e-9,
                      f'{f} with default parameters', law=law, iface=iface,
                      given=sorted(kw))
        ctx.close(a.entropy(**k), b.entropy(**k), 1e-9,
                  'entropy with default parameters', law=law, iface=iface)
    # a complex scatter alone, by name
    p = ctx.integers(1, 4)
    S = gen.spd(ctx.rng, p, True, 10.)
    z = gen.randn(ctx.rng, (5, p), True)
    kw = {names[1]: S}
    a, k = (mine(**kw), {}) if iface == 'frozen' else (mine, kw)
    rp = real_pair(None, S, p)
    b = stats.multivariate_normal(*rp) if law == 'normal' else \
        stats.multivariate_t(*rp, 1)
    for f in ('logpdf', 'pdf'):
        ctx.close(getattr(a, f)(z, **k), getattr(b, f)(flat_points(z, p)),
                  1e-9, f'{f} with a matrix only', law=law, iface=iface)
    ctx.close(a.entropy(**k), b.entropy(), 1e-9, 'entropy with a matrix only')
    ctx.sig(law, iface, p)


@C11.case(quick=48)
def singular(ctx):
    """Singular scatters: refused, or (on demand) the law on the support."""
    cplx, law, where = ctx.cyc(CPLX, ('normal', 't'), ('in', 'out'))
    p = ctx.integers(2, 5)
    r = ctx.integers(1, p-1)
    B = gen.invertible(ctx.rng, p, cplx)[:, :r]
    S = gen.herm_part(B@B.conj().T)
    m = gen.randn(ctx.rng, (p,), cplx)
    x = m + gen.randn(ctx.rng, (5, r), cplx)@B.T
    if where == 'out':
        u = np.linalg.svd(B)[0][:, -1]
        x = x + u*ctx.rng.uniform(1, 3)
    mine = N if law == 'normal' else T
    df = ctx.pick((1., 4.))
    pars = (m, S) if law == 'normal' else (m, S, df)
    ctx.raises(Exception, lambda: mine(*pars),
               'frozen model of a singular matrix was not refused', law=law)
    ctx.raises(Exception, lambda: mine(*pars, allow_singular=False),
               'frozen model of a singular matrix was not refused', law=law)
    if law == 'normal':
        for f in (N.logpdf, N.pdf, N.cdf, N.logcdf):
            ctx.raises(Exception, lambda: f(x, m, S),
                       f'{f.__name__} of a singular matrix was not refused')
    else:
        ctx.raises(Exception, lambda: T.pdf(x, m, S, df),
                   'pdf of a singular matrix was not refused')
    d = mine(*pars, allow_singular=True)
    if law == 'normal':
        got = [N.logpdf(x, m, S, True), d.logpdf(x),
               N.logpdf(x, m, S, allow_singular=True)]
        pdfs = [N.pdf(x, m, S, True), d.pdf(x),
                N.pdf(x, m, S, allow_singular=True)]
        if where == 'in':
            y = np.linalg.lstsq(B, (x-m).T, rcond=None)[0]
            c = 1 if cplx else .5
            w = -c*np.sum(np.abs(y)**2, 0)-c*r*np.log(np.pi/c) - \
                c*np.linalg.slogdet(B.conj().T@B)[1]
        else:
            w = np.full(5, -np.inf)
    else:
        got, pdfs = [T.logpdf(x, m, S, df), d.logpdf(x)], [
            T.pdf(x, m, S, df, True), d.pdf(x)]
        rp = real_pair(m, S, p) if cplx else (m, S)
        xx = flat_points(x, p) if cplx else x
        w = stats.multivariate_t(*rp, df, allow_singular=True).logpdf(xx)
    for v in got:
        ctx.check(np.allclose(v, w, rtol=1e-6, atol=1e-6),
                  'logpdf of a singular law', law=law, cplx=cplx,
                  where=where, got=v, expected=w)
    for v in pdfs:
        ctx.check(np.allclose(v, np.exp(w), rtol=1e-5, atol=1e-300),
                  'pdf of a singular law', law=law, cplx=cplx, where=where,
                  got=v, expected=np.exp(w))
    ctx.sig(cplx, law, where, p, r)


# ===========================================================================
C12 = Prop('C12', 'samples of the real code judged by goodness-of-fit '
           'monitors at fixed error level 1e-9 per test; non-trivial = '
           'non-diagonal matrix, p>=2', ['KS tests and 7-sigma bounds'],
           scale=20)
ALPHA = 1e-9


def judge_directions(ctx, z, what):
    """Unit vectors: uniform on the complex sphere."""
    n, p = z.shape
    u = z/np.linalg.norm(z, axis=1)[:, None]
    lim = 7*np.sqrt(1./(p*n))
    ctx.small(u.T@u.conj()/n-np.eye(p)/p, lim,
              f'{what}: directions have the wrong covariance')
    ctx.small(u.T@u/n, lim, f'{what}: directions are not circular')
    ctx.small(u.mean(0), lim, f'{what}: directions have a non-zero mean')
    ph = np.angle(z).ravel()/(2*np.pi) + .5
    ctx.check(stats.kstest(ph[:4*n], 'uniform').pvalue > ALPHA,
              f'{what}: phases are not uniform')
    if p >= 2:
        d = np.angle(z[:, 0]*z[:, 1].conj())/(2*np.pi)+.5
        ctx.check(stats.kstest(d, 'uniform').pvalue > ALPHA,
                  f'{what}: phases of coordinates are dependent')
        ctx.check(stats.kstest(np.abs(u[:, -1])**2, stats.beta(
            1, p-1).cdf).pvalue > ALPHA, f'{what}: moduli of directions')


def whiten(x, m, S):
    L = np.linalg.cholesky(S)
    return np.linalg.solve(L, (x-m).T).T


@C12.case(quick=48)
def complex_laws(ctx):
    law, iface, kind = ctx.cyc(('normal', 't'), ('generic', 'frozen'), KINDS)
    p = ctx.integers(1, 4)
    df = ctx.pick((.8, 3., 15.))
    m, S = parameters(ctx, kind, p)
    n = 4000 if not ctx.thorough else 20000
    pars = (m, S) if law == 'normal' else (m, S, df)
    d = N if law == 'normal' else T
    rs = ctx.pick((None, 'int', 'state'))
    seed = {None: None, 'int': ctx.integers(0, 2**31-1),
            'state': np.random.RandomState(ctx.integers(0, 2**31-1))}[rs]
    if iface == 'generic':
        x = d.rvs(*pars, size=n, random_state=seed)
    else:
        x = d(*pars).rvs(size=n, random_state=seed)
    ctx.check(x.shape == (n, p) and np.iscomplexobj(x),
              'shape or type of the samples', shape=x.shape)
    z = whiten(x, 0 if m is None else m, S)
    q = np.sum(np.abs(z)**2, axis=1)
    if law == 'normal':
        cdf = stats.gamma(p).cdf
    else:
        cdf = stats.f(2*p, df).cdf
        q = q/p
    pv = stats.kstest(q, cdf).pvalue
    ctx.check(pv > ALPHA, f'radial law of the {law} samples', pvalue=pv,
              df=df, kind=kind, iface=iface)
    judge_directions(ctx, z, law)
    # independence of successive samples
    r = np.argsort(np.argsort(q))/n
    c = np.corrcoef(r[:-1], r[1:])[0, 1]
    ctx.small(c, 7/np.sqrt(n), 'successive samples are dependent')
    if law == 't' and p >= 1 and df < 5:
        # heavy tails common to all coordinates
        if p >= 2:
            a = stats.rankdata(np.abs(z[:, 0]))
            b = stats.rankdata(np.abs(z[:, 1]))
            ctx.check(np.corrcoef(a, b)[0, 1] > 7/np.sqrt(n)*.5,
                      'coordinates of the t law are not dependent', df=df)
    ctx.event('samples judged', n)
    if p >= 2:
        ctx.sig(law, iface, kind, p, df, complex(x[0, 0]))
    ctx.sample(law=law, interface=iface, kind=kind, p=p, n=n, p_value=pv)


@C12.case(quick=12)
def many_draws(ctx):
    """Large sizes: no draw twice, and the law of all of them."""
    law, iface, kind = ctx.cyc(('normal', 't'), ('generic', 'frozen'),
                               ('MS', 'ms'))
    p, n = ctx.integers(1, 3), ctx.integers(20000, 60000)
    m, S = parameters(ctx, kind, p)
    pars = (m, S) if law == 'normal' else (m, S, 4.)
    d = N if law == 'normal' else T
    seed = ctx.integers(0, 2**31-1)
    x = d.rvs(*pars, size=n, random_state=seed) if iface == 'generic' else \
        d(*pars).rvs(size=n, random_state=seed)
    x = np.reshape(x, (n, p))
    ctx.check(len(np.unique(x, axis=0)) == n, 'the same draw twice')
    q = gen.quad(x-m, S)
    c = 2. if np.iscomplexobj(x) else 1.
    cdf = stats.chi2(c*p).cdf if law == 'normal' else stats.f(c*p, 4.).cdf
    for part in (slice(None, n//3), slice(n//3, None)):
        pv = stats.kstest(q[part]*c/(1. if law == 'normal' else c*p),
                          cdf).pvalue
        ctx.check(pv > ALPHA, f'radial law of many {law} samples', pvalue=pv,
                  kind=kind)
    z = q[1:]*0+(q[:-1] > np.median(q))
    r = np.corrcoef(z, q[1:] > np.median(q))[0, 1]
    ctx.small(r*np.sqrt(n), 7, 'successive draws are dependent')
    ctx.event('samples observed', n)
    ctx.sig('many', law, iface, kind, p)


@C12.case(quick=48)
def reproducible(ctx):
    law, kind, size = ctx.cyc(('normal', 't'), KINDS+('ms', '0s'), (1, 2, 7))
    p = ctx.integers(1, 4)
    m, S = parameters(ctx, kind, p)
    pars = (m, S) if law == 'normal' else (m, S, 3.)
    d = N if law == 'normal' else T
    seed = ctx.integers(0, 2**31-1)
    state = np.random.get_state()[1].copy()
    a = d.rvs(*pars, size=size, random_state=seed)
    b = d.rvs(*pars, size=size, random_state=np.random.RandomState(seed))
    c = d(*pars).rvs(size=size, random_state=seed)
    e = d(*pars, seed=seed).rvs(size=size)
    ctx.equal(np.random.get_state()[1], state,
              'global random generator touched')
    for v, what in ((b, 'random state'), (c, 'frozen'), (e, 'frozen seed')):
        ctx.equal(v, a, f'{what} gives other samples', law=law, kind=kind)
    cplx = 'M' in kind or 'S' in kind
    ctx.check(np.iscomplexobj(a) == cplx, 'type of the samples')
    if cplx:
        ctx.check(np.size(a) == size*p, 'number of samples', shape=a.shape)
    else:
        ref = (stats.multivariate_normal if law == 'normal' else
               stats.multivariate_t).rvs(*pars, size=size, random_state=seed)
        ctx.equal(a, ref, 'real samples differ from scipy', law=law)
    o = d.rvs(*pars, size=size, random_state=seed+1)
    ctx.check(not np.array_equal(o, a), 'seed is ignored')
    # successive draws of one frozen generator differ and are reproducible
    f, g = d(*pars, seed=seed), d(*pars, seed=seed)
    s1, s2 = f.rvs(size=size), f.rvs(size=size)
    ctx.check(not np.array_equal(s1, s2), 'the same samples again')
    ctx.equal(g.rvs(size=size), s1, 'first draw of the same seed')
    ctx.equal(g.rvs(size=size), s2, 'second draw of the same seed')
    # default generator: the global one, honouring its seed
    np.random.seed(seed)
    u = d.rvs(*pars, size=size)
    np.random.seed(seed)
    ctx.equal(d.rvs(*pars, size=size), u, 'global seed not honoured')
    ctx.sig(law, kind, size, p)


@C12.case(quick=24)
def location(ctx):
    """Samples move with the location: same seed, translated law."""
    law, iface = ctx.cyc(('normal', 't'), ('generic', 'frozen'))
    p = ctx.integers(1, 4)
    m, S = parameters(ctx, 'MS', p)
    seed = ctx.integers(0, 10**6)
    b = gen.randn(ctx.rng, (p,), True)

    def draw(m, S):
        pars = (m, S) if law == 'normal' else (m, S, 4.)
        d = N if law == 'normal' else T
        if iface == 'frozen':
            return d(*pars).rvs(size=9, random_state=seed)
        return d.rvs(*pars, size=9, random_state=seed)
    x = draw(m, S)
    ctx.close(draw(m+b, S)-b, x, 1e-9, 'location does not translate')
    ctx.sig(law, iface, p, complex(x[0, 0]))


@C12.case(quick=48)
def parameter_forms(ctx):
    """Scalar and diagonal scatters, lists, defaults: the same samples as
    with the matrices they stand for."""
    law, form, given = ctx.cyc(('normal', 't'), (
        'scalar', 'vector', 'lists', 'default', 'real'), ('size', 'nosize'))
    p = ctx.integers(1, 4)
    d = N if law == 'normal' else T
    df = ctx.pick((1., 3.)) if form != 'default' else 1
    tail = () if law == 'normal' else (df,)
    m = gen.randn(ctx.rng, (p,), True)
    seed = ctx.integers(0, 10**6)
    kw = dict(random_state=seed)
    if given == 'size':
        kw['size'] = ctx.integers(1, 6)
    if form == 'real':
        ref = stats.multivariate_normal if law == 'normal' else \
            stats.multivariate_t
        names = ('mean', 'cov') if law == 'normal' else ('loc', 'shape')
        for k in ({}, {names[0]: [1., 2.]}, {names[1]: 3.},
                  {names[1]: [[2., 1.], [1., 3.]]},
                  {names[0]: [0., 5.], names[1]: [4., .1]}):
            ctx.equal(d.rvs(**k, **kw), ref.rvs(**k, **kw),
                      'samples of defaults or lists', law=law, given=k)
            ctx.equal(d(**k).rvs(**kw), ref(**k).rvs(**kw),
                      'samples of defaults or lists, frozen', law=law)
        ctx.sig(law, form, given)
        return
    if form == 'scalar':
        S = ctx.pick((3, .2))
        full = S*np.eye(p)
    elif form == 'vector':
        S = ctx.rng.uniform(.1, 5, p)
        full = np.diag(S)
    elif form == 'lists':
        full = gen.spd(ctx.rng, p, True, 10.)
        S, m = full.tolist(), m.tolist()
    else:
        S, full = None, np.eye(p)
    args = (m,) if S is None else (m, S)+tail
    expect = d.rvs(np.asarray(m), full, *tail, **kw)
    ctx.check(np.iscomplexobj(expect) and np.size(expect) ==
              p*kw.get('size', 1), 'shape or type of the samples',
              shape=np.shape(expect), p=p, size=kw.get('size'))
    for x in (d.rvs(*args, **kw), d(*args).rvs(**kw)):
        ctx.check(np.shape(x) == np.shape(expect) and
                  np.allclose(x, expect, rtol=1e-9, atol=1e-9),
                  'form of the parameters changes the samples', law=law,
                  form=form, got=x, expected=expect)
    ctx.sig(law, form, given, p, complex(np.ravel(expect)[0]))


@C12.case(quick=24)
def singular(ctx):
    """Samples of a singular complex law stay on its support."""
    law, iface = ctx.cyc(('normal', 't'), ('generic', 'frozen'))
    p = ctx.integers(2, 4)
    r = ctx.integers(1, p-1)
    B = gen.invertible(ctx.rng, p, True)[:, :r]
    S = gen.herm_part(B@B.conj().T)
    m = gen.randn(ctx.rng, (p,), True)
    pars = (m, S) if law == 'normal' else (m, S, 3.)
    d = N if law == 'normal' else T
    n, seed = 800, ctx.integers(0, 10**6)
    x = d.rvs(*pars, size=n, random_state=seed) if iface == 'generic' else \
        d(*pars, allow_singular=True).rvs(size=n, random_state=seed)
    y = np.linalg.lstsq(B, (x-m).T, rcond=None)[0].T
    size = np.linalg.norm(x-m, axis=1)
    ctx.small(np.linalg.norm(y@B.T-(x-m), axis=1)/size, 1e-3,
              'samples leave the support of the law', law=law)
    judge_directions(ctx, y, f'singular {law}')
    q = np.sum(np.abs(y)**2, axis=1)
    if law == 'normal':
        ctx.check(stats.kstest(q, stats.gamma(r).cdf).pvalue > ALPHA,
                  'radial law of singular samples')
    ctx.sig(law, iface, p, r)


# ===========================================================================
C13 = Prop('C13', 'cost, backends and automatic gradients at random, '
           'degenerate and badly scaled matrices; non-trivial = p>=2',
           ['condition number of Q at most 1e4 (1e2 for gradients)'],
           scale=150)


def ref_cost(X, Q):
    return Q.shape[0]*np.sum(np.log(gen.quad(X, Q))) + \
        len(X)*np.linalg.slogdet(Q)[1]


def spectrum(ctx, p, cplx, kind):
    if kind == 'identity':
        return np.eye(p, dtype=complex if cplx else float)*ctx.pick((1., 4.))
    if kind == 'repeated':
        u = gen.unitary(ctx.rng, p, cplx)
        e = ctx.rng.choice([1., 3.], p)
        return gen.herm_part((u*e)@u.conj().T)
    if kind == 'diagonal':
        return np.diag(ctx.rng.choice([.5, 1., 2.], p)).astype(
            complex if cplx else float)
    return gen.spd(ctx.rng, p, cplx, 30.)


SPECTRA = ('random', 'identity', 'repeated', 'diagonal')


@C13.case(quick=96)
def value(ctx):
    cplx, kind, backend = ctx.cyc(CPLX, SPECTRA, (False, True))
    p, n = ctx.integers(1, 7), ctx.integers(1, 30)
    if ctx.integers(0, 15) == 5:
        n = ctx.integers(300, 9000)
    elif ctx.integers(0, 15) == 10:
        p, n = ctx.integers(12, 70), ctx.integers(1, 200)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(gen.LAWS))
    Q = spectrum(ctx, p, cplx, kind)*10.**ctx.rng.uniform(-8, 8)
    f = TYLER_COST[cplx]
    v = f(X, Q, backend) if ctx.index % 2 else f(X, Q, autograd=backend)
    ctx.check(np.ndim(v) == 0 and np.isrealobj(v), 'cost is not a real '
              'number', type=str(type(v)))
    ref = ref_cost(X, Q)
    s = 1+abs(ref)+n*p*30
    ctx.small((v-ref)/s, 1e-10, 'cost is not the closed form', cplx=cplx,
              kind=kind, backend=backend)
    ctx.small((f(X, Q*7.3, backend)-v)/s, 1e-10, 'depends on scale of Q')
    w = ctx.pick((3, 15, 60))
    c = 10.**ctx.rng.uniform(-w, w, n)
    ctx.small((f(X*c[:, None], Q, backend)-v-2*p*np.sum(np.log(c)))/s,
              1e-10, 'scaling of samples')
    A = gen.invertible(ctx.rng, p, cplx)
    w = f(X@A.T, gen.herm_part(A@Q@A.conj().T), backend)
    ctx.small((w-v-2*n*np.linalg.slogdet(A)[1])/s, 1e-9,
              'not equivariant to linear maps')
    ctx.small((f(X[ctx.rng.permutation(n)], Q, backend)-v)/s, 1e-11,
              'order of samples')
    if cplx:
        ctx.small((f(X.conj(), Q.conj(), backend)-v)/s, 1e-10,
                  'conjugated data')
    if p >= 2:
        ctx.sig(cplx, kind, backend, p, n, float(v))
    ctx.sample(cplx=cplx, kind=kind, autograd=backend, p=p, n=n, value=v)


@C13.case(quick=32)
def extreme_determinant(ctx):
    cplx, backend, e = ctx.cyc(CPLX, (False, True), (-1, 1))
    p, n = ctx.integers(25, 60), ctx.integers(3, 10)
    s = 10.**(e*ctx.integers(14, 25))
    Q = gen.spd(ctx.rng, p, cplx, 10., s)
    X = gen.randn(ctx.rng, (n, p), cplx)
    v = TYLER_COST[cplx](X, Q, backend)
    ctx.check(np.isfinite(v), 'cost is not finite', p=p, scale=s)
    w = TYLER_COST[cplx](X, Q/s, backend)
    ctx.small((v-w)/(1+abs(w)), 1e-8, 'cost depends on the scale of Q')
    ctx.sig(cplx, backend, e, p)


def gradient(X, Q, cplx):
    return autograd.grad(lambda q: TYLER_COST[cplx](X, q, autograd=True))(Q)


@C13.case(quick=64)
def gradients(ctx):
    cplx, kind = ctx.cyc(CPLX, SPECTRA)
    p, n = ctx.integers(1, 5), ctx.integers(3, 25)
    X = gen.samples(ctx.rng, n, p, cplx, ctx.pick(('gauss', 't', 'gamma')))
    if ctx.integers(0, 1):      # the norms of the samples do not matter
        X = X*10.**ctx.rng.uniform(-40, 40, (n, 1))
    Q = spectrum(ctx, p, cplx, kind)
    G = gradient(X, Q, cplx)
    ctx.check(G.shape == (p, p) and np.all(np.isfinite(G)),
              'gradient is not finite', kind=kind, cplx=cplx)
    # closed form: n Q^-1 - p sum Q^-1 x x^H Q^-1/q
    Qi = np.linalg.inv(Q)
    w = p/gen.quad(X, Q)
    E = n*Qi - Qi@((X.T*w)@X.conj())@Qi
    scale = np.linalg.norm(n*Qi)
    # autograd returns the conjugate of the Hermitian gradient
    ctx.small(np.linalg.norm(gen.herm_part(G)-gen.herm_part(E).conj())/scale,
              1e-8, 'gradient is not the closed form', kind=kind, cplx=cplx)
    for _ in range(3):
        H = gen.herm(ctx.rng, p, cplx)
        H = H/np.linalg.norm(H)*np.linalg.eigvalsh(Q)[0]
        h = 1e-4
        num = (ref_cost(X, Q+h*H)-ref_cost(X, Q-h*H))/(2*h)
        got = np.real(np.sum(G*H))
        ctx.small((num-got)/(scale*np.linalg.norm(H)), 1e-5,
                  'gradient is not the directional derivative', kind=kind)
        ctx.event('directional derivatives compared')
    ctx.small(np.real(np.sum(G*Q))/(n*p), 1e-9,
              'cost is not constant along scalings')
    if p >= 2:
        ctx.sig(cplx, kind, p, n, float(scale))


@C13.case(quick=32)
def minimiser(ctx):
    cplx, law = ctx.cyc(CPLX, ('gauss', 't', 'scaled', 'skew'))
    p = ctx.integers(2, 5)
    X = gen.samples(ctx.rng, 12*p+8, p, cplx, law)
    S = TYLER[cplx](tol=1e-10, iter_max=4000).fit(X).covariance_
    f = TYLER_COST[cplx]
    v = f(X, S)
    r = gen.powm(gen.herm_part(S), .5)
    for size in (1e-3, .1, 1., 5.):
        H = gen.herm(ctx.rng, p, cplx)
        P = gen.herm_part(r@gen.fun(size*H/np.linalg.norm(H), np.exp)@r)
        ctx.check(f(X, P) >= v-1e-9*(1+abs(v)),
                  'a lower cost than at the Tyler estimate', size=size)
    P = gen.spd(ctx.rng, p, cplx, 100.)
    ctx.check(f(X, P) >= v-1e-9*(1+abs(v)),
              'a lower cost than at the Tyler estimate')
    G = gradient(X, S, cplx)
    ctx.small(np.linalg.norm(r.conj()@G@r.conj())/len(X), 1e-6,
              'gradient does not vanish at the Tyler estimate')
    # geodesic convexity towards the minimum
    w = gen.powm(gen.herm_part(S), -.5)
    L = gen.fun(gen.herm_part(w@P@w), np.log)
    c = [f(X, gen.herm_part(r@gen.fun(t*L, np.exp)@r))
         for t in np.linspace(0, 1, 6)]
    ctx.check(np.all(np.diff(c, 2) >= -1e-8*(1+abs(v))),
              'cost is not convex along geodesics', values=c)
    ctx.sig(cplx, law, p)


@C13.case(quick=16)
def incompatible_shapes(ctx):
    cplx, backend = ctx.cyc(CPLX, (False, True))
    p = ctx.integers(2, 6)
    q = ctx.pick((p-1, p+1, 2*p))
    X = gen.randn(ctx.rng, (9, p), cplx)
    Q = gen.spd(ctx.rng, q, cplx)
    ctx.raises(Exception, lambda: TYLER_COST[cplx](X, Q, backend),
               'incompatible shapes accepted', p=p, q=q)
    ctx.sig(cplx, backend, p, q)


PROPS = {p.id: p for p in (C10, C11, C12, C13)}
