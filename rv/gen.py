"""Workload generators: matrices and data sets, from ordinary to hostile."""
import numpy as np

LAWS = ('gauss', 't', 'gamma', 'lognormal', 'scaled', 'contaminated', 'skew',
        'discrete')


def randn(rng, shape, cplx):
    x = rng.standard_normal(shape)
    if cplx:
        x = (x + 1j*rng.standard_normal(shape))/np.sqrt(2)
    return x


def unitary(rng, p, cplx):
    q, r = np.linalg.qr(randn(rng, (p, p), cplx))
    d = np.diagonal(r)
    return q*(d/np.abs(d))


def spd(rng, p, cplx, cond=20., scale=1.):
    """Random symmetric/Hermitian positive definite matrix."""
    e = np.exp(rng.uniform(0, np.log(cond), p)) if p > 1 else np.ones(1)
    u = unitary(rng, p, cplx)
    m = (u*(e*scale))@u.conj().T
    return (m+m.conj().T)/2


def herm(rng, p, cplx):
    m = randn(rng, (p, p), cplx)
    return (m+m.conj().T)/2


def toeplitz(rho, p, cplx):
    i = np.arange(p)
    d = i[:, None]-i[None, :]
    m = np.abs(rho)**np.abs(d) + 0j
    m = m*np.exp(1j*np.angle(rho)*d)
    return m if cplx else np.real(np.abs(rho)**np.abs(d))


def invertible(rng, p, cplx, cond=10.):
    s = np.exp(rng.uniform(0, np.log(cond), p))
    return (unitary(rng, p, cplx)*s)@unitary(rng, p, cplx)


def shape_root(rng, p, cplx, cond):
    return np.linalg.cholesky(spd(rng, p, cplx, cond))


def textures(rng, n, law):
    if law == 't':
        df = rng.choice([1., 2.1, 4., 20.])
        return df/rng.chisquare(df, n)
    if law == 'gamma':
        return rng.gamma(.5, 2., n) + 1e-6
    if law == 'lognormal':
        return np.exp(1.5*rng.standard_normal(n))
    if law == 'scaled':
        return 10.**rng.uniform(-6, 6, n)
    if law == 'contaminated':
        t = np.ones(n)
        t[:max(1, n//20)] = 1e6
        return rng.permutation(t)
    return np.ones(n)


def samples(rng, n, p, cplx, law='gauss', cond=20., root=None):
    """n samples in rows, in general position almost surely."""
    root = shape_root(rng, p, cplx, cond) if root is None else root
    if law == 'skew':       # iid skewed components, non circular if complex
        z = rng.exponential(1., (n, p)) - .7
        if cplx:
            z = z + 1j*(.3*rng.exponential(1., (n, p)) - .2)
    elif law == 'discrete':
        z = rng.randint(-9, 10, (n, p)) + .37
        if cplx:
            z = z + 1j*(rng.randint(-9, 10, (n, p)) + .11)
    else:
        z = randn(rng, (n, p), cplx)
    z = z*np.sqrt(textures(rng, n, law))[:, None]
    return z@root.T


def herm_part(m):
    return (m+np.swapaxes(m, -1, -2).conj())/2


def powm(m, a):
    d, u = np.linalg.eigh(m)
    return (u*d**a)@u.conj().T


def fun(m, f):
    d, u = np.linalg.eigh(m)
    return (u*f(d))@u.conj().T


def quad(X, M):
    """x_i^H M^{-1} x_i."""
    return np.real(np.sum(X.conj()*np.linalg.solve(M, X.T).T, axis=1))


def whitened_error(A, B):
    """||A^{-1/2} B A^{-1/2} - I||_2 for Hermitian A>0 and Hermitian B."""
    try:
        w = powm(herm_part(A), -.5)
    except np.linalg.LinAlgError:
        return np.nan
    if not (np.all(np.isfinite(w)) and np.all(np.isfinite(B))):
        return np.nan
    return np.linalg.norm(w@B@w-np.eye(len(A)), 2)


def relation(A, B):
    return whitened_error(A, B)


def shape_of(M):
    """Trace-normalised version, compared up to scale."""
    return M/(np.real(np.trace(M))/len(M))
