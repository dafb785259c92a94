"""C16-C19: Riemannian manifolds."""
import numpy as np

from .. import gen
from ..core import Prop
from ..lib import manifolds, frozen

HPD = manifolds.HermitianPositiveDefinite
SHPD = manifolds.SpecialHermitianPositiveDefinite
SPV = manifolds.StrictlyPositiveVectors
WP = manifolds.WeightedProduct
KRON = manifolds.KroneckerHermitianPositiveElliptical


def split(x, k):
    return [x] if k == 1 else list(x)


def join(xs, k):
    return xs[0] if k == 1 else np.array(xs)


class Matrices:
    """Reference geometry of k stacked Hermitian matrices."""

    def __init__(self, n, k, unit=False):
        self.n, self.k, self.unit = n, k, unit

    def point(self, ctx, cond=10.):
        out = []
        for _ in range(self.k):
            m = gen.spd(ctx.rng, self.n, True, cond,
                        1. if self.unit else 10.**ctx.rng.uniform(-3, 3))
            if self.unit:
                m = m/np.exp(np.linalg.slogdet(m)[1]/self.n)
            out.append(m)
        return join(out, self.k)

    def tangent(self, ctx, x, size=1.):
        out = []
        for m in split(x, self.k):
            r = gen.powm(m, .5)
            h = gen.herm(ctx.rng, self.n, True)
            if self.unit:
                h = h-np.trace(h)/self.n*np.eye(self.n)
            h = h*size/max(np.linalg.norm(h), 1e-3)
            out.append(gen.herm_part(r@h@r))
        return join(out, self.k)

    def inner(self, x, u, v):
        return sum(np.real(np.trace(np.linalg.solve(m, a) @
                                    np.linalg.solve(m, b)))
                   for m, a, b in zip(split(x, self.k), split(u, self.k),
                                      split(v, self.k)))

    def norm(self, x, u):
        return np.sqrt(max(self.inner(x, u, u), 0))

    def whiten(self, x, y):
        out = []
        for m, a in zip(split(x, self.k), split(y, self.k)):
            w = gen.powm(m, -.5)
            out.append(w@a@w)
        return join(out, self.k)

    def exp(self, x, u):
        out = []
        for m, a in zip(split(x, self.k), split(u, self.k)):
            r, w = gen.powm(m, .5), gen.powm(m, -.5)
            out.append(r@gen.fun(gen.herm_part(w@a@w), np.exp)@r)
        return gen.herm_part(join(out, self.k))

    def dist(self, x, y):
        s = 0
        for m, a in zip(split(x, self.k), split(y, self.k)):
            w = gen.powm(m, -.5)
            s += np.sum(np.log(np.linalg.eigvalsh(gen.herm_part(w@a@w)))**2)
        return np.sqrt(s)

    def congruence(self, g, x):
        return join([gen.herm_part(a@m@a.conj().T) for a, m in zip(
            split(g, self.k), split(x, self.k))], self.k)

    def check_point(self, ctx, x, what):
        shape = (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)
        ctx.check(np.shape(x) == shape, f'{what}: wrong shape',
                  shape=np.shape(x), expected=shape)
        ctx.check(np.all(np.isfinite(x)), f'{what}: not finite')
        for m in split(x, self.k):
            ctx.close(m, m.conj().T, 1e-9, f'{what}: not Hermitian')
            ctx.check(np.linalg.eigvalsh(gen.herm_part(m))[0] > 0,
                      f'{what}: not positive definite')
            if self.unit:
                ctx.small(np.abs(np.linalg.det(m)-1), 1e-8,
                          f'{what}: determinant is not one')

    def check_tangent(self, ctx, x, u, what, tol=1e-9):
        ctx.check(np.shape(u) == np.shape(x), f'{what}: wrong shape')
        s = max(self.norm(x, u), 1e-12)
        for m, a in zip(split(x, self.k), split(u, self.k)):
            ctx.small(self_norm(m, a-a.conj().T)/s, tol,
                      f'{what}: not Hermitian')
            if self.unit:
                ctx.small(np.abs(np.trace(np.linalg.solve(m, a)))/s, tol,
                          f'{what}: trace constraint violated')

    def error(self, x, a, b):
        """Size of a-b measured at x."""
        return self.norm(x, gen.herm_part(a-b)) + np.max(np.abs(
            (a-b)-gen.herm_part(a-b)))/np.max(np.abs(x))


def self_norm(m, a):
    w = gen.powm(m, -.5)
    return np.linalg.norm(w@a@w)


# functions with known derivatives, for the gradients and Hessians
class LinearQuadraticLog:
    """f(x) = sum_j Re tr(C x) + .5 Re tr(D x E x) + c log det x."""

    def __init__(self, ctx, n, k, scale=1.):
        self.k = k
        self.C = [gen.randn(ctx.rng, (n, n), True)/scale for _ in range(k)]
        self.D = [gen.herm(ctx.rng, n, True)/scale for _ in range(k)]
        self.E = [gen.herm(ctx.rng, n, True)/scale for _ in range(k)]
        self.c = ctx.rng.randn(k)

    def value(self, x):
        return sum(np.real(np.trace(C@m)) +
                   .5*np.real(np.trace(D@m@E@m))+c*np.linalg.slogdet(m)[1]
                   for C, D, E, c, m in zip(self.C, self.D, self.E, self.c,
                                            split(x, self.k)))

    def egrad(self, x):
        """G with df = Re tr(G^H dx) on Hermitian directions (not
        Hermitian itself: only its Hermitian part matters)."""
        return join([C.conj().T + .5*(E@m@D+D@m@E)+c*np.linalg.inv(m)
                     for C, D, E, c, m in zip(
                         self.C, self.D, self.E, self.c,
                         split(x, self.k))], self.k)

    def ehess(self, x, u):
        return join([.5*(E@a@D+D@a@E) -
                     c*np.linalg.solve(m, a)@np.linalg.inv(m)
                     for D, E, c, m, a in zip(
                         self.D, self.E, self.c, split(x, self.k),
                         split(u, self.k))], self.k)


def second_derivative(f, h=1e-3):
    """Fourth order central differences."""
    return (-f(2*h)+16*f(h)-30*f(0)+16*f(-h)-f(-2*h))/(12*h*h)


def first_derivative(f, h=1e-4):
    return (8*(f(h)-f(-h))-(f(2*h)-f(-2*h)))/(12*h)


def manifold(ctx, cls, nmax=4, kmax=4):
    nmin = 2 if cls is SHPD else 1
    n, k = ctx.integers(nmin, nmax), ctx.pick(range(1, kmax+1))
    if ctx.integers(0, 11) == 0:    # sizes out of the ordinary
        n, k = ctx.pick(((nmin, 17), (3, 9), (9, 1), (12, 2), (6, 6)))
    return cls(n, k), Matrices(n, k, cls is SHPD), n, k


# -- checks shared by the two matrix manifolds -------------------------------
def random_elements(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = man.rand()
    ref.check_point(ctx, x, 'random point')
    ctx.check(np.iscomplexobj(x), 'random point is not complex')
    if n > 1:
        for m in split(x, k):
            ctx.check(np.max(np.abs(m.imag)) > 1e-12, 'random point is real')
        ctx.check(len({m.tobytes() for m in split(x, k)}) == k,
                  'stacked random matrices repeat')
    y = man.rand()
    ctx.check(n == 1 and cls is SHPD or ref.dist(x, y) > 1e-9,
              'random points repeat')
    x = ref.point(ctx)
    u, v = man.randvec(x), man.randvec(x)
    ref.check_tangent(ctx, x, u, 'random tangent vector')
    ctx.check(len({m.tobytes() for m in split(u, k)}) == k,
              'stacked random vectors repeat')
    ctx.small(ref.norm(x, u)-1, 1e-9, 'random tangent vector is not unit',
              n=n, k=k)
    ctx.check(abs(abs(ref.inner(x, u, v))-1) > 1e-9 or n == 1,
              'random tangent vectors repeat')
    z = man.zerovec(x)
    ctx.check(np.shape(z) == np.shape(x) and not np.any(z), 'zero vector')
    # dimension of the tangent space, by the rank of random vectors
    d = man.dim
    real = [np.concatenate([w.real.ravel(), w.imag.ravel()])
            for w in (man.randvec(x) for _ in range(d+3))]
    rank = np.linalg.matrix_rank(np.array(real)/np.linalg.norm(
        real, axis=1)[:, None], tol=1e-8)
    if n <= 3:
        ctx.check(rank == d, 'dimension of the tangent space', dim=d,
                  rank=rank)
    ctx.sig(n, k, np.real(u.flat[0]))
    ctx.sample(n=n, k=k, point=x)


def metric(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx)
    u, v, w = (ref.tangent(ctx, x, 10.**ctx.rng.uniform(-3, 3))
               for _ in range(3))
    g = ref.inner(x, u, v)
    s = ref.norm(x, u)*ref.norm(x, v)+1e-300
    ctx.check(np.ndim(man.inner(x, u, v)) == 0 and np.isrealobj(
        man.inner(x, u, v)), 'inner product is not a real number')
    ctx.small((man.inner(x, u, v)-g)/s, 1e-9, 'inner product', n=n, k=k)
    ctx.small((man.inner(x, v, u)-g)/s, 1e-9, 'not symmetric')
    ctx.small(man.norm(x, u)/max(ref.norm(x, u), 1e-300)-1, 1e-9, 'norm') \
        if ref.norm(x, u) > 0 else None
    t = ctx.rng.randn()
    ctx.small((man.inner(x, u+t*w, v)-g-t*ref.inner(x, w, v)) /
              (s+abs(t)*ref.norm(x, w)*ref.norm(x, v)+1e-300), 1e-9,
              'not linear')
    ctx.check(man.inner(x, u, u) >= 0, 'inner product not positive')
    a = join([gen.invertible(ctx.rng, n, True) for _ in range(k)], k)
    if cls is SHPD:
        a = join([m/np.linalg.det(m)**(1/n) for m in split(a, k)], k)
    ctx.small((man.inner(ref.congruence(a, x), ref.congruence(a, u),
                         ref.congruence(a, v))-g)/s, 1e-8,
              'not affine invariant')
    y = ref.point(ctx)
    d = ref.dist(x, y)
    ctx.check(np.ndim(man.dist(x, y)) == 0, 'distance is not a number')
    ctx.small((man.dist(x, y)-d)/(1+d), 1e-8, 'distance', n=n, k=k)
    ctx.small((man.dist(y, x)-d)/(1+d), 1e-8, 'distance not symmetric')
    ctx.small(man.dist(x, x), 1e-6, 'distance to itself')
    ctx.small((man.dist(ref.congruence(a, x), ref.congruence(a, y))-d) /
              (1+d), 1e-7, 'distance not invariant')
    z = ref.point(ctx)
    ctx.check(man.dist(x, z) <= man.dist(x, y)+man.dist(y, z)+1e-8,
              'triangle inequality')
    if n > 1:
        ctx.sig(n, k, float(d))


def exp_log(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x, y = ref.point(ctx), ref.point(ctx)
    size = ctx.pick((1e-3, .3, 1., 4.))
    u = ref.tangent(ctx, x, size)
    e = man.exp(x, u)
    ref.check_point(ctx, e, 'exp')
    ctx.small(ref.dist(ref.exp(x, u), e), 1e-7, 'exp is not the geodesic',
              n=n, k=k, size=size)
    ctx.small((man.dist(x, e)-ref.norm(x, u))/(1+size), 1e-7,
              'distance to exp is not the norm')
    ctx.small(ref.error(x, man.log(x, e), u)/(1+size), 1e-7,
              'log does not invert exp', n=n, k=k)
    v = man.log(x, y)
    ref.check_tangent(ctx, x, v, 'log', 1e-8)
    ctx.small(ref.dist(man.exp(x, v), y), 1e-6, 'exp does not invert log')
    ctx.small((man.norm(x, v)-ref.dist(x, y))/(1+ref.dist(x, y)), 1e-7,
              'distance is not the norm of the log')
    # log of points is antisymmetric up to transport, geodesics are shared
    m = man.exp(x, .5*v)
    ctx.small((ref.dist(m, x)-ref.dist(m, y))/(1+ref.dist(x, y)), 1e-6,
              'midpoint is not in the middle')
    # close points: the relative error stays small
    t = 10.**ctx.rng.uniform(-7, -1)
    w = ref.tangent(ctx, x, 1.)*t
    if ref.norm(x, w):
        t = ref.norm(x, w)
        q = man.exp(x, w)
        ctx.small(man.dist(x, q)/t-1, 1e-10/t+1e-7, 'distance of close '
                  'points', t=t, n=n, k=k)
        ctx.small(ref.error(x, man.log(x, q), w)/t, 1e-10/t+1e-7,
                  'log of close points', t=t, n=n, k=k)
    z = np.zeros_like(x)
    ctx.small(ref.dist(man.exp(x, z), x), 1e-6, 'exp of zero')
    ctx.small(ref.error(x, man.log(x, x), z), 1e-6, 'log of itself')
    if n > 1:
        ctx.sig(n, k, size, float(ref.dist(x, y)))


def retraction(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx)
    size = ctx.pick((.1, 1., 3., 20.))
    u = ref.tangent(ctx, x, size)
    r = man.retr(x, u)
    ref.check_point(ctx, r, 'retraction')
    ctx.small(ref.dist(man.retr(x, np.zeros_like(x)), x), 1e-7,
              'retraction of zero')
    errs = []
    u = ref.tangent(ctx, x, 1.)
    for t in (.2, .1, .05):
        errs.append(ref.dist(ref.exp(x, t*u), man.retr(x, t*u)))
    # second order: error O(t^3)
    ctx.check(errs[1] <= errs[0]/5 + 1e-7 and errs[2] <= errs[1]/5 + 1e-7,
              'retraction is not of second order', errors=errs, n=n, k=k)
    ctx.check(errs[2] < 1e-4, 'retraction is far from exp', errors=errs)
    if n > 1:
        ctx.sig(n, k, size, errs[0])


def projection(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx)
    shape = np.shape(x)
    scale = np.max(np.abs(x))
    a = gen.randn(ctx.rng, shape, True)*scale
    if ctx.index % 2:
        a = gen.herm_part(a)
    p = man.proj(x, a)
    ref.check_tangent(ctx, x, p, 'projection')
    ctx.small(ref.error(x, man.proj(x, p), p)/(1+ref.norm(x, p)), 1e-9,
              'projection is not idempotent')
    v = ref.tangent(ctx, x)
    ctx.small(ref.error(x, man.proj(x, v), v), 1e-9,
              'projection moves tangent vectors')
    h = gen.herm_part(a)
    ctx.small(ref.inner(x, h-p, v)/(1+ref.norm(x, h)), 1e-9,
              'projection is not orthogonal', n=n, k=k)
    if cls is HPD:
        ctx.small(np.max(np.abs(p-h))/scale, 1e-12,
                  'projection is not the Hermitian part')
    if n > 1:
        ctx.sig(n, k, complex(p.flat[0]))


def gradient(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx, 5.)
    f = LinearQuadraticLog(ctx, n, k, np.max(np.abs(x)))
    g = man.egrad2rgrad(x, f.egrad(x))
    ref.check_tangent(ctx, x, g, 'gradient')
    for _ in range(3):
        u = ref.tangent(ctx, x)
        d = first_derivative(lambda t: f.value(ref.exp(x, t*u)))
        ctx.small((man.inner(x, g, u)-d)/(1+ref.norm(x, g)), 1e-6,
                  'gradient is not dual to the differential', n=n, k=k)
        ctx.event('directional derivatives compared')
    if n > 1:
        ctx.sig(n, k, complex(g.flat[0]))


def hessian(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx, 5.)
    f = LinearQuadraticLog(ctx, n, k, np.max(np.abs(x)))
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    hu = man.ehess2rhess(x, f.egrad(x), f.ehess(x, u), u)
    hv = man.ehess2rhess(x, f.egrad(x), f.ehess(x, v), v)
    ref.check_tangent(ctx, x, hu, 'Hessian')
    d = second_derivative(lambda t: f.value(ref.exp(x, t*u)))
    s = 1+ref.norm(x, hu)+abs(f.value(x))
    ctx.small((man.inner(x, hu, u)-d)/s, 1e-5,
              'Hessian is not the second derivative along geodesics', n=n,
              k=k)
    ctx.small((man.inner(x, hu, v)-man.inner(x, hv, u))/s, 1e-8,
              'Hessian is not symmetric')
    if n > 1:
        ctx.sig(n, k, float(d))


def transport(ctx, cls):
    man, ref, n, k = manifold(ctx, cls)
    x, y = ref.point(ctx), ref.point(ctx)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    tu, tv = man.transp(x, y, u), man.transp(x, y, v)
    ref.check_tangent(ctx, y, tu, 'transported vector', 1e-7)
    ctx.small(ref.inner(y, tu, tv)-ref.inner(x, u, v), 1e-6,
              'transport is not an isometry', n=n, k=k)
    w = man.log(x, y)
    s = 1+ref.norm(x, w)
    ctx.small(ref.error(y, man.transp(x, y, w), -man.log(y, x))/s, 1e-6,
              'initial velocity is not carried to the final velocity', n=n,
              k=k)
    ctx.small(ref.error(x, man.transp(x, x, u), u), 1e-7,
              'transport to the same point')
    ctx.small(ref.error(x, man.transp(y, x, tu), u), 1e-6,
              'transport back along the geodesic')
    t = ctx.rng.randn()
    ctx.small(ref.error(y, man.transp(x, y, u+t*v), tu+t*tv)/(1+abs(t)),
              1e-7, 'transport is not linear')
    if n > 1:
        ctx.sig(n, k, complex(tu.flat[0]))


def stacked(ctx, cls):
    """k matrices at once as k times one matrix; nothing modified."""
    n, k = ctx.integers(2 if cls is SHPD else 1, 4), ctx.integers(2, 4)
    man, one = cls(n, k), cls(n)
    ref = Matrices(n, k, cls is SHPD)
    x, y = ref.point(ctx), ref.point(ctx)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    a = gen.randn(ctx.rng, (k, n, n), True)
    args = dict(x=x, y=y, u=u, v=v, a=a)
    keep = {i: j.copy() for i, j in args.items()}
    ops = {'exp': lambda m, x, y, u, v, a: m.exp(x, u),
           'log': lambda m, x, y, u, v, a: m.log(x, y),
           'retr': lambda m, x, y, u, v, a: m.retr(x, u),
           'proj': lambda m, x, y, u, v, a: m.proj(x, a),
           'transp': lambda m, x, y, u, v, a: m.transp(x, y, u),
           'egrad2rgrad': lambda m, x, y, u, v, a: m.egrad2rgrad(x, a)}
    if cls is HPD:
        ops['ehess2rhess'] = lambda m, x, y, u, v, a: m.ehess2rhess(
            x, a, v, u)
    for name, op in ops.items():
        full = op(man, **args)
        for i in range(k):
            single = op(one, **{j: m[i] for j, m in args.items()})
            ctx.close(full[i], single, 1e-7, f'{name} does not act matrix '
                      'by matrix', n=n, k=k)
    ctx.small((man.inner(x, u, v)-sum(one.inner(x[i], u[i], v[i]) for i in
                                      range(k)))/(k+1e-9), 1e-8,
              'inner is not the sum over matrices')
    ctx.small((man.dist(x, y)**2-sum(one.dist(x[i], y[i])**2 for i in
                                     range(k)))/(1+man.dist(x, y)**2), 1e-7,
              'squared distance is not the sum over matrices')
    for j in args:
        ctx.equal(args[j], keep[j], 'an argument was modified')
    ctx.sig(n, k, complex(x.flat[0]))


def walk(ctx, cls):
    """Histories: a walk by the operations of the manifold, carrying a frame
    of tangent vectors, stays where it should at every step."""
    man, ref, n, k = manifold(ctx, cls, 3, 3)
    x = man.rand() if ctx.index % 2 else ref.point(ctx)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    g = ref.inner(x, u, v), ref.inner(x, u, u)
    start, length = x, 0.
    keep = []
    for step in range(ctx.pick((12, 30))):
        w = man.randvec(x)*ctx.pick((.01, .3, 1.))
        op = ctx.pick(('exp', 'retr', 'exp'))
        y = getattr(man, op)(x, w)
        ref.check_point(ctx, y, f'point after {step+1} steps')
        u, v = man.transp(x, y, u), man.transp(x, y, v)
        ref.check_tangent(ctx, y, u, f'vector after {step+1} steps', 1e-7)
        length += man.dist(x, y)
        keep.append((x, x.copy()))
        x = y
        ctx.event('steps of walks')
    ctx.small(ref.inner(x, u, v)-g[0], 1e-5*(1+g[1]),
              'transport along a walk is not isometric', n=n, k=k)
    ctx.small(ref.inner(x, u, u)-g[1], 1e-5*(1+g[1]),
              'transport along a walk is not isometric', n=n, k=k)
    ctx.check(man.dist(start, x) <= length*(1+1e-7)+1e-7,
              'distance exceeds the length of a path')
    for a, b in keep:
        ctx.equal(a, b, 'an earlier point was modified')
    if n > 1:
        ctx.sig(n, k, float(length))


def scalings(ctx, cls):
    """Multiples of points and vectors, far from one."""
    man, ref, n, k = manifold(ctx, cls)
    x, y = ref.point(ctx), ref.point(ctx)
    c = 10.**ctx.integers(-90, 90)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    X, Y, U, V = c*x, c*y, c*u, c*v
    ctx.small(man.inner(X, U, V)-ref.inner(x, u, v), 1e-8, 'inner', c=c)
    ctx.small(man.norm(X, U)-ref.norm(x, u), 1e-8, 'norm', c=c)
    ctx.small(man.dist(X, Y)-ref.dist(x, y), 1e-7*(1+ref.dist(x, y)), 'dist',
              c=c)
    for name, a in (('exp', ref.exp(x, u)), ('retr', man.retr(x, u))):
        z = getattr(man, name)(X, U)/c
        ctx.check(np.all(np.isfinite(z)), f'{name} is not finite', c=c)
        ctx.small(ref.dist(gen.herm_part(z), a), 1e-6,
                  f'{name} does not commute with scalings', c=c)
    ctx.small(ref.error(x, man.log(X, Y)/c, man.log(x, y)) /
              (1+ref.dist(x, y)), 1e-6, 'log does not commute with scalings')
    ctx.small(ref.error(y, man.transp(X, Y, U)/c, man.transp(x, y, u)), 1e-6,
              'transport does not commute with scalings', c=c)
    ctx.small(ref.norm(x, man.randvec(X)/c)-1, 1e-8,
              'random vector is not unit', c=c)
    if n > 1:
        ctx.sig(n, k, c)


def euclidean_arguments(ctx, cls):
    """Only the Hermitian parts of Euclidean derivatives matter."""
    man, ref, n, k = manifold(ctx, cls)
    x = ref.point(ctx)
    shape = np.shape(x)
    G, E = (gen.randn(ctx.rng, shape, True) for _ in range(2))
    u = ref.tangent(ctx, x)
    s = 1+ref.norm(x, man.egrad2rgrad(x, G))
    ctx.small(ref.error(x, man.egrad2rgrad(x, G), man.egrad2rgrad(
        x, gen.herm_part(G)))/s, 1e-10, 'skew part of the gradient matters')
    if cls is HPD:
        h = man.ehess2rhess(x, G, E, u)
        ctx.small(ref.error(x, h, man.ehess2rhess(
            x, gen.herm_part(G), gen.herm_part(E), u))/(1+ref.norm(x, h)),
            1e-10, 'skew part of the Hessian matters')
        ref.check_tangent(ctx, x, h, 'Hessian')
    if n > 1:
        ctx.sig(n, k, complex(G.flat[0]))


def register(prop, cls, fns):
    for fn, n in fns:
        def case(ctx, fn=fn):
            fn(ctx, cls)
        case.__name__ = fn.__name__
        prop.case(n)(case)


C16 = Prop('C16', 'random points, tangent vectors and test functions over '
           'n, k, condition numbers and step sizes; non-trivial = n>=2',
           ['moderately conditioned matrices'], scale=40)
register(C16, HPD, [(random_elements, 40), (metric, 40), (exp_log, 40),
                    (retraction, 30), (projection, 30), (gradient, 40),
                    (hessian, 30), (transport, 40), (stacked, 30),
                    (walk, 10), (scalings, 20), (euclidean_arguments, 10)])

C17 = Prop('C17', 'random points, tangent vectors and test functions over '
           'n, k, condition numbers and step sizes; non-trivial = n>=2',
           ['moderately conditioned matrices'], scale=20)
register(C17, SHPD, [(random_elements, 40), (metric, 40), (exp_log, 40),
                     (retraction, 30), (projection, 40), (gradient, 40),
                     (transport, 40), (stacked, 30), (walk, 10),
                     (euclidean_arguments, 10)])


@C17.case(quick=30)
def agrees_with_hpd(ctx):
    n, k = ctx.integers(2, 4), ctx.integers(1, 3)
    m, h, ref = SHPD(n, k), HPD(n, k), Matrices(n, k, True)
    x, y = ref.point(ctx), ref.point(ctx)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    ctx.small(m.inner(x, u, v)-h.inner(x, u, v), 1e-9, 'inner')
    ctx.small(m.norm(x, u)-h.norm(x, u), 1e-9, 'norm')
    ctx.small(m.dist(x, y)-h.dist(x, y), 1e-8, 'dist')
    ctx.small(ref.dist(m.exp(x, u), h.exp(x, u)), 1e-7, 'exp')
    ctx.small(ref.error(x, m.log(x, y), h.log(x, y)), 1e-8, 'log')
    ctx.small(ref.error(y, m.transp(x, y, u), h.transp(x, y, u)), 1e-7,
              'transp')
    ctx.sig(n, k, complex(x.flat[0]))


# ===========================================================================
C18 = Prop('C18', 'random positive vectors over n, k and magnitudes; '
           'non-trivial = n>=2', ['entries between 1e-8 and 1e8'], scale=160)


def vectors(ctx):
    n, k = ctx.integers(1, 6), ctx.integers(1, 4)
    x, y = (10.**ctx.rng.uniform(-4, 4, (n, k)) for _ in range(2))
    return SPV(n, k), n, k, x, y


@C18.case(quick=50)
def spv_random(ctx):
    man, n, k, x, y = vectors(ctx)
    p, q = man.rand(), man.rand()
    ctx.check(np.shape(p) == (n, k), 'shape of a random point',
              shape=np.shape(p))
    ctx.check(np.all(p > 0) and np.all(np.isfinite(p)), 'random point is '
              'not positive')
    ctx.check(not np.array_equal(p, q), 'random points repeat')
    u = man.randvec(x)
    ctx.check(np.shape(u) == (n, k), 'shape of a random vector')
    ctx.small(np.sum((u/x)**2, axis=0)-1, 1e-9,
              'columns of a random tangent vector are not unit')
    ctx.check(not np.any(man.zerovec(x)) and man.zerovec(x).shape == (n, k),
              'zero vector')
    ctx.check(man.dim == n*k, 'dimension', dim=man.dim)
    ctx.check(np.isclose(man.typicaldist, np.sqrt(n*k)), 'typical distance')
    if n > 1:
        ctx.sig(n, k, p[0, 0])


@C18.case(quick=60)
def spv_metric(ctx):
    man, n, k, x, y = vectors(ctx)
    u, v = (x*ctx.rng.randn(n, k)*10.**ctx.rng.uniform(-3, 3)
            for _ in range(2))
    g = np.sum(u*v/x**2, axis=0)
    nu = np.sqrt(np.sum((u/x)**2, axis=0))
    nv = np.sqrt(np.sum((v/x)**2, axis=0))
    ctx.check(np.shape(man.inner(x, u, v)) == (1, k), 'shape of inner')
    ctx.small((man.inner(x, u, v)[0]-g)/(nu*nv), 1e-10, 'inner product')
    ctx.small((man.inner(x, v, u)[0]-g)/(nu*nv), 1e-10, 'not symmetric')
    ctx.small(man.norm(x, u)[0]/nu-1, 1e-10, 'norm')
    c = 10.**ctx.rng.uniform(-3, 3, (n, 1))
    ctx.small((man.inner(c*x, c*u, c*v)[0]-g)/(nu*nv), 1e-10,
              'metric is not scale invariant')
    d = np.sqrt(np.sum((np.log(x)-np.log(y))**2, axis=0))
    ctx.check(np.shape(man.dist(x, y)) == (1, k), 'shape of dist')
    ctx.small((man.dist(x, y)[0]-d)/(1+d), 1e-10, 'distance')
    ctx.small((man.dist(y, x)[0]-d)/(1+d), 1e-10, 'distance not symmetric')
    ctx.small((man.dist(c*x, c*y)[0]-d)/(1+d), 1e-9,
              'distance not invariant')
    ctx.close(man.proj(x, u), u, 1e-15, 'projection is not the identity')
    if n > 1:
        ctx.sig(n, k, d[0])
    ctx.sample(n=n, k=k, x=x, distance=d)


@C18.case(quick=60)
def spv_exp_log(ctx):
    man, n, k, x, y = vectors(ctx)
    u = x*ctx.rng.randn(n, k)*ctx.pick((1e-3, 1., 5.))
    e = man.exp(x, u)
    ctx.check(np.shape(e) == (n, k) and np.all(e > 0), 'exp not positive')
    ctx.small(np.log(e)-np.log(x)-u/x, 1e-10, 'exp is not the geodesic')
    ctx.small((man.log(x, e)-u)/x, 1e-8, 'log does not invert exp')
    ctx.small(np.log(man.exp(x, man.log(x, y)))-np.log(y), 1e-9,
              'exp does not invert log')
    ctx.small(man.norm(x, man.log(x, y))-man.dist(x, y), 1e-8,
              'distance is not the norm of the log')
    big = x*ctx.rng.randn(n, k)*100
    r = man.retr(x, big)
    ctx.check(np.all(r > 0) and np.shape(r) == (n, k),
              'retraction leaves the manifold')
    ctx.close(man.retr(x, 0*u), x, 1e-14, 'retraction of zero')
    w = x*ctx.rng.uniform(.3, 1, (n, k))*ctx.rng.choice([-1, 1], (n, k))
    er = [np.abs(np.log(man.retr(x, t*w)/x)-t*w/x).max() for t in (.2, .1)]
    ctx.check(er[1] <= er[0]/5+1e-12 and er[0] < .05,
              'retraction is not of second order', errors=er)
    t = man.transp(x, y, u)
    ctx.close(t/y, u/x, 1e-10, 'transport')
    ctx.small((man.norm(y, t)-man.norm(x, u))/(1+man.norm(x, u)), 1e-10,
              'transport is not isometric')
    ctx.small((man.transp(x, y, man.log(x, y))+man.log(y, x))/y, 1e-8,
              'transport of velocities')
    if n > 1:
        ctx.sig(n, k, e[0, 0])


@C18.case(quick=40)
def spv_extremes(ctx):
    """Very long and very short steps."""
    man, n, k, x, y = vectors(ctx)
    a = ctx.rng.uniform(-1, 1, (n, k))*10.**ctx.rng.uniform(-12, 2.6, (n, k))
    u = x*a
    e = man.exp(frozen(x), frozen(u))
    ctx.small(np.log(e)-np.log(x)-a, 1e-12*(1+np.abs(a)+np.abs(np.log(x))),
              'long steps of exp')
    y = x*np.exp(a)
    ctx.small(man.log(frozen(x), frozen(y))/x-np.log(y/x), 1e-12*(
        1+np.abs(a)), 'log of distant points')
    d = man.dist(x, y)
    ref = np.sqrt(np.sum(np.log(y/x)**2, axis=0))
    ctx.small(d[0]-ref, 1e-12*(1+np.abs(np.log(x)).max()+ref),
              'distance of distant points')
    w = x*ctx.rng.uniform(-1, 1, (n, k))*10.**ctx.rng.uniform(-12, 12, (n, k))
    b = w/x
    # x (1 + b + b^2/2), a sum without cancellation: ((1+b)^2 + 1)/2
    ctx.small(man.retr(x, w)/(x*((1+b)**2+1)/2)-1, 1e-9,
              'retraction of long steps')
    t = man.transp(x, y, w)
    ctx.small((t/y-b)/np.abs(b), 1e-12, 'transport to distant points')
    ctx.sig(n, k, float(a[0, 0]))


@C18.case(quick=60)
def spv_derivatives(ctx):
    n, k = ctx.integers(1, 5), ctx.integers(1, 3)
    man = SPV(n, k)
    x = np.exp(ctx.rng.randn(n, k))
    C, D = ctx.rng.randn(n, k), ctx.rng.randn(n, n)
    D = D+D.T

    def f(z):
        return np.sum(C*z)+.5*np.sum(z*(D@z))+np.sum(np.log(z)*C**2)

    def eg(z):
        return C+D@z+C**2/z

    def eh(z, u):
        return D@u-C**2/z**2*u
    u, v = x*ctx.rng.randn(n, k), x*ctx.rng.randn(n, k)
    g = man.egrad2rgrad(x, eg(x))
    d = first_derivative(lambda t: f(x*np.exp(t*u/x)))
    s = 1+abs(d)+np.sum(np.abs(g/x))*np.sum(np.abs(u/x))
    ctx.small((np.sum(man.inner(x, g, u))-d)/s, 1e-7,
              'gradient is not dual to the differential')
    hu, hv = (man.ehess2rhess(x, eg(x), eh(x, w), w) for w in (u, v))
    dd = second_derivative(lambda t: f(x*np.exp(t*u/x)))
    s = 1+abs(dd)+np.sum(np.abs(hu/x))*np.sum(np.abs(u/x))+abs(f(x))
    ctx.small((np.sum(man.inner(x, hu, u))-dd)/s, 1e-5,
              'Hessian is not the second derivative along geodesics')
    ctx.small((np.sum(man.inner(x, hu, v))-np.sum(man.inner(x, hv, u)))/(
        s+np.sum(np.abs(hv/x))*np.sum(np.abs(u/x)) +
        np.sum(np.abs(hu/x))*np.sum(np.abs(v/x))), 1e-9,
        'Hessian is not symmetric')
    ctx.event('directional derivatives compared')
    if n > 1:
        ctx.sig(n, k, float(d))


@C18.case(quick=30)
def spv_history(ctx):
    """Walks far from one, in any size; arguments are left alone."""
    n, k = ctx.pick(((1, 1), (2, 5), (40, 3), (3, 33), (7, 1)))
    man = SPV(n, k) if k > 1 or ctx.index % 2 else SPV(n)
    x = man.rand()*10.**ctx.rng.uniform(-60, 60, (n, 1))
    u = x*ctx.rng.randn(n, k)
    logs, rel, total = np.log(x), u/x, np.zeros(k)
    start = x
    for step in range(20):
        w = man.randvec(x)*ctx.pick((.1, 1., 5.))
        ctx.small(man.norm(x, w)/np.sqrt(np.sum((w/x)**2, 0))-1, 1e-9,
                  'norm along a walk')
        op = ctx.pick(('exp', 'retr'))
        args = [frozen(a) for a in (x, w)]
        y = getattr(man, op)(*args)
        ctx.check(np.all(y > 0) and np.all(np.isfinite(y)) and
                  np.shape(y) == (n, k), f'{op} leaves the manifold')
        if op == 'exp':
            logs = logs+w/x
        else:
            logs = logs+np.log1p(w/x+.5*(w/x)**2)
        ctx.small(np.log(y)-logs, 1e-9*(1+np.abs(logs)), f'{op} of a walk')
        d = man.dist(frozen(x), frozen(y))
        ctx.small(man.norm(x, man.log(x, y))-d, 1e-9*(1+np.max(d)),
                  'norm of log along a walk')
        total = total+d[0]
        u = man.transp(frozen(x), frozen(y), frozen(u))
        ctx.small(u/y-rel, 1e-9*(1+np.abs(rel)), 'transport of a walk')
        x = y
        ctx.event('steps of walks')
    ctx.check(np.all(man.dist(start, x)[0] <= total*(1+1e-9)),
              'distance exceeds the length of a path')
    ctx.sig(n, k, float(logs[0, 0]))


# ===========================================================================
C19 = Prop('C19', 'random products/Kronecker manifolds, weights, alpha, k; '
           'non-trivial = at least two factors of dimension >= 2',
           ['alpha > ab/(ab+1), where the Fisher metric is positive'],
           scale=20)


class VectorRef:
    """Reference geometry of positive vectors (columns)."""

    def __init__(self, n, k=1):
        self.n, self.k = n, k

    def point(self, ctx, cond=None):
        return np.exp(ctx.rng.randn(self.n, self.k))

    def tangent(self, ctx, x, size=1.):
        u = ctx.rng.randn(self.n, self.k)
        return x*u/np.linalg.norm(u)*size

    def inner(self, x, u, v):
        return np.sum(u*v/x**2)

    def norm(self, x, u):
        return np.sqrt(self.inner(x, u, u))

    def exp(self, x, u):
        return x*np.exp(u/x)

    def dist(self, x, y):
        return np.linalg.norm(np.log(x)-np.log(y))

    def error(self, x, a, b):
        return self.norm(x, a-b)

    def check_point(self, ctx, x, what):
        ctx.check(np.shape(x) == (self.n, self.k) and np.all(x > 0),
                  f'{what}: not positive vectors')

    def check_tangent(self, ctx, x, u, what, tol=None):
        ctx.check(np.shape(u) == np.shape(x), f'{what}: wrong shape')


class VectorFunction:
    def __init__(self, ctx, n, k=1):
        self.C = ctx.rng.randn(n, k)
        self.D = ctx.rng.randn(n, n)
        self.D = self.D+self.D.T

    def value(self, x):
        return float(np.sum(self.C*x)+.5*np.sum(x*(self.D@x)))

    def egrad(self, x):
        return self.C+self.D@x

    def ehess(self, x, u):
        return self.D@u


def random_product(ctx, hessian=False):
    mans, refs, fns = [], [], []
    for _ in range(ctx.pick((1, 2, 2, 2, 3, 3, 3, 4, 6))):
        kind = ctx.pick(('hpd', 'spv', 'hpdk') if hessian else
                        ('hpd', 'shpd', 'spv', 'hpdk', 'shpdk'))
        n = ctx.integers(2, 3)
        if kind == 'spv':
            k = ctx.pick((1, 1, 2, 3))
            mans.append(SPV(n, k) if k > 1 else SPV(n))
            refs.append(VectorRef(n, k))
        else:
            k = ctx.integers(2, 3) if kind.endswith('k') else 1
            kind = kind.rstrip('k')
            mans.append((SHPD if kind == 'shpd' else HPD)(n, k))
            refs.append(Matrices(n, k, kind == 'shpd'))
    w = None
    if ctx.index % 4:
        w = 10.**ctx.rng.uniform(-2, 2, len(mans))
        if ctx.index % 4 == 1:
            w = ctx.rng.randint(1, 9, len(mans))    # integers
        if ctx.integers(0, 1):
            given = w.tolist()
            man = WP(tuple(mans), given)
            given[0] = -1.      # the caller may reuse its list
            return man, mans, refs, w
        given = w.copy()
        man = WP(mans, weights=given)
        given[:] = -1.
        return man, mans, refs, w
    return WP(mans, weights=w), mans, refs, (
        np.ones(len(mans)) if w is None else w)


def tup(ctx, xs):
    return ctx.pick((list, tuple))(xs)


def pfun(ctx, refs, x):
    return [VectorFunction(ctx, r.n, r.k) if isinstance(r, VectorRef) else
            LinearQuadraticLog(ctx, r.n, r.k, np.max(np.abs(a)))
            for r, a in zip(refs, x)]


def pinner(w, refs, x, u, v):
    return sum(a*r.inner(*t) for a, r, *t in zip(w, refs, x, u, v))


@C19.case(quick=50)
def product_metric(ctx):
    man, mans, refs, w = random_product(ctx)
    x = tup(ctx, [r.point(ctx) for r in refs])
    y = tup(ctx, [r.point(ctx) for r in refs])
    u = tup(ctx, [r.tangent(ctx, a, 10.**ctx.rng.uniform(-2, 2))
                  for r, a in zip(refs, x)])
    v = tup(ctx, [r.tangent(ctx, a) for r, a in zip(refs, x)])
    g = pinner(w, refs, x, u, v)
    nu = np.sqrt(pinner(w, refs, x, u, u))
    nv = np.sqrt(pinner(w, refs, x, v, v))
    ctx.check(np.ndim(man.inner(x, u, v)) == 0 and
              np.ndim(man.dist(x, y)) == 0 and np.ndim(man.norm(x, u)) == 0,
              'inner product or distance is not a number',
              components=[(type(m).__name__, r.k) for m, r in zip(mans,
                                                                  refs)])
    ctx.small((man.inner(x, u, v)-g)/(nu*nv), 1e-9,
              'inner product is not the weighted sum', weights=w)
    ctx.small((man.inner(x, v, u)-g)/(nu*nv), 1e-9, 'not symmetric')
    ctx.small((man.norm(x, u)-nu)/nu, 1e-9, 'norm')
    d = np.sqrt(sum(a*r.dist(*t)**2 for a, r, *t in zip(w, refs, x, y)))
    ctx.small((man.dist(x, y)-d)/(1+d), 1e-8,
              'squared distance is not the weighted sum', weights=w)
    ctx.small((man.dist(y, x)-d)/(1+d), 1e-8, 'distance is not symmetric')
    # componentwise operations and consistency with the metric
    e = man.exp(x, v)
    for i, r in enumerate(refs):
        r.check_point(ctx, e[i], 'exp of the product')
        ctx.small(r.dist(r.exp(x[i], v[i]), e[i]), 1e-7,
                  'exp does not act by component')
    ctx.small((man.dist(x, e)-nv)/(1+nv), 1e-7,
              'distance to exp is not the norm')
    lg = man.log(x, y)
    ctx.small((man.norm(x, lg)-d)/(1+d), 1e-7,
              'norm of log is not the distance')
    r = man.retr(x, v)
    for i, q in enumerate(refs):
        q.check_point(ctx, r[i], 'retraction of the product')
    t = man.transp(x, y, v)
    ctx.small((np.sqrt(pinner(w, refs, y, t, t))-nv)/nv, 1e-6,
              'transport is not isometric')
    ctx.sig([type(m).__name__ for m in mans], float(d))
    ctx.sample(components=[type(m).__name__ for m in mans], weights=w,
               distance=d)


@C19.case(quick=40)
def product_random(ctx):
    man, mans, refs, w = random_product(ctx)
    for i, a in enumerate(man.rand()):
        refs[i].check_point(ctx, a, 'random point of the product')
    x = [r.point(ctx) for r in refs]
    u = man.randvec(x)
    for i, r in enumerate(refs):
        r.check_tangent(ctx, x[i], u[i], 'random tangent vector')
        ctx.check(np.any(u[i]), 'a component of a random vector is zero')
    ctx.small(pinner(w, refs, x, u, u)-1, 1e-9,
              'random tangent vector is not unit', weights=w)
    ctx.check(man.dim == sum(m.dim for m in mans), 'dimension')
    ctx.sig([type(m).__name__ for m in mans], float(w[0]))


@C19.case(quick=50)
def product_gradient(ctx):
    man, mans, refs, w = random_product(ctx)
    x = [r.point(ctx, 5.) for r in refs]
    fs = pfun(ctx, refs, x)
    g = man.egrad2rgrad(x, [f.egrad(a) for f, a in zip(fs, x)])
    for i, r in enumerate(refs):
        r.check_tangent(ctx, x[i], g[i], 'gradient')
    for _ in range(2):
        u = [r.tangent(ctx, a) for r, a in zip(refs, x)]
        d = first_derivative(lambda t: sum(
            f.value(r.exp(a, t*b)) for f, r, a, b in zip(fs, refs, x, u)))
        s = 1+abs(d)+sum(r.norm(a, b) for r, a, b in zip(refs, x, g))
        ctx.small((pinner(w, refs, x, g, u)-d)/s/max(1, w.max()), 1e-6,
                  'gradient is not dual to the weighted metric', weights=w)
        ctx.small((man.inner(x, g, u)-d)/s/max(1, w.max()), 1e-6,
                  'gradient is not dual to the inner product')
    ctx.sig([type(m).__name__ for m in mans], float(d))


@C19.case(quick=40)
def product_hessian(ctx):
    man, mans, refs, w = random_product(ctx, hessian=True)
    x = [r.point(ctx, 5.) for r in refs]
    fs = pfun(ctx, refs, x)
    u, v = ([r.tangent(ctx, a) for r, a in zip(refs, x)] for _ in range(2))
    eg = [f.egrad(a) for f, a in zip(fs, x)]
    hu, hv = (man.ehess2rhess(x, eg, [f.ehess(a, b) for f, a, b in zip(
        fs, x, z)], z) for z in (u, v))
    d = second_derivative(lambda t: sum(
        f.value(r.exp(a, t*b)) for f, r, a, b in zip(fs, refs, x, u)))
    s = 1+abs(d)+sum(r.norm(a, b)*c for r, a, b, c in zip(
        refs, x, hu, w)) + sum(abs(f.value(a)) for f, a in zip(fs, x))
    ctx.small((man.inner(x, hu, u)-d)/s, 1e-5,
              'Hessian is not the second derivative along geodesics',
              weights=w)
    ctx.small((man.inner(x, hu, v)-man.inner(x, hv, u))/s/max(1, w.max()),
              1e-8, 'Hessian is not symmetric')
    ctx.sig([type(m).__name__ for m in mans], float(d))


class Fisher:
    """Reference Fisher geometry of the Kronecker elliptical model: the
    metric of the full matrix alpha tr((S^-1 dS)^2) + (alpha-1) tr(S^-1
    dS)^2 with S = kron(A, B), pulled back to the factors."""

    def __init__(self, a, b, alpha, k):
        self.a, self.b, self.alpha, self.k = a, b, alpha, k
        self.RA, self.RB = Matrices(a, k, True), Matrices(b, k)

    def point(self, ctx, cond=6.):
        return [self.RA.point(ctx, cond), self.RB.point(ctx, cond)]

    def tangent(self, ctx, x, size=1.):
        return [self.RA.tangent(ctx, x[0], size),
                self.RB.tangent(ctx, x[1], size)]

    def inner(self, x, u, v):
        out = 0
        k = self.k
        for A, B, dA, dB, eA, eB in zip(*(
                split(z, k) for z in (*x, *u, *v))):
            Si = np.kron(np.linalg.inv(A), np.linalg.inv(B))
            D = Si@(np.kron(dA, B)+np.kron(A, dB))
            E = Si@(np.kron(eA, B)+np.kron(A, eB))
            out += np.real(self.alpha*np.trace(D@E) +
                           (self.alpha-1)*np.trace(D)*np.trace(E))
        return out

    def exp(self, x, u):
        return [self.RA.exp(x[0], u[0]), self.RB.exp(x[1], u[1])]

    def length(self, x, y):
        """Length of the geodesic, which is that of both factors."""
        u = []
        for r, p, q in ((self.RA, x[0], y[0]), (self.RB, x[1], y[1])):
            out = []
            for m, a in zip(split(p, self.k), split(q, self.k)):
                s, w = gen.powm(m, .5), gen.powm(m, -.5)
                out.append(s@gen.fun(gen.herm_part(w@a@w), np.log)@s)
            u.append(join(out, self.k))
        return np.sqrt(max(self.inner(x, u, u), 0))


def kron(ctx, kmax=3):
    a, b = ctx.integers(2, 3), ctx.integers(1, 3)
    k = ctx.integers(1, kmax)
    if ctx.integers(0, 11) == 0:    # sizes out of the ordinary
        a, b, k = ctx.pick(((2, 6, 1), (5, 1, 2), (6, 2, 1), (2, 2, 12),
                            (4, 4, 4)))
    n = a*b
    df = ctx.pick((.5, 2., 30.))
    alpha = ctx.pick(((df+n)/(df+n+1), 1.))
    return KRON(a, b, alpha, k) if k > 1 or ctx.index % 2 else KRON(
        a, b, alpha), Fisher(a, b, alpha, k)


@C19.case(quick=60)
def kron_metric(ctx):
    man, ref = kron(ctx)
    x, y = tup(ctx, ref.point(ctx)), tup(ctx, ref.point(ctx))
    u, v, w = (tup(ctx, ref.tangent(ctx, x)) for _ in range(3))
    g, gu, gv = ref.inner(x, u, v), ref.inner(x, u, u), ref.inner(x, v, v)
    s = np.sqrt(gu*gv)
    ctx.check(np.ndim(man.inner(x, u, v)) == 0, 'inner is not a number')
    ctx.small((man.inner(x, u, v)-g)/s, 1e-8,
              'inner product is not the Fisher metric', a=ref.a, b=ref.b,
              k=ref.k, alpha=ref.alpha)
    ctx.small((man.inner(x, v, u)-g)/s, 1e-8, 'not symmetric')
    ctx.check(man.inner(x, u, u) > 0, 'metric is not positive')
    # worst direction of the indefinite-looking term
    z = [0*x[0], x[1]]
    gz = ref.inner(x, z, z)
    ctx.check(gz > 0, 'reference metric not positive')
    ctx.small(man.inner(x, z, z)/gz-1, 1e-7, 'metric along scalings')
    ctx.small((man.norm(x, u)-np.sqrt(gu))/np.sqrt(gu), 1e-8, 'norm')
    d = ref.length(x, y)
    ctx.check(np.ndim(man.dist(x, y)) == 0, 'distance is not a number')
    ctx.small((man.dist(x, y)-d)/(1+d), 1e-7,
              'distance is not the length of the geodesic', a=ref.a,
              b=ref.b, k=ref.k, alpha=ref.alpha)
    ctx.small((man.dist(y, x)-d)/(1+d), 1e-7, 'distance is not symmetric')
    # invariance under the structured linear group
    k = ref.k
    P = join([gen.invertible(ctx.rng, ref.a, True) for _ in range(k)], k)
    P = join([m/np.linalg.det(m)**(1/ref.a) for m in split(P, k)], k)
    Q = join([gen.invertible(ctx.rng, ref.b, True) for _ in range(k)], k)

    def act(t):
        return [ref.RA.congruence(P, t[0]), ref.RB.congruence(Q, t[1])]
    ctx.small((man.inner(act(x), act(u), act(v))-g)/s, 1e-7,
              'metric is not invariant')
    ctx.small((man.dist(act(x), act(y))-d)/(1+d), 1e-6,
              'distance is not invariant')
    e = man.exp(x, u)
    ctx.small((man.dist(x, e)-np.sqrt(gu))/(1+np.sqrt(gu)), 1e-6,
              'distance to exp is not the norm')
    ctx.sig(ref.a, ref.b, ref.k, ref.alpha, float(d))


@C19.case(quick=60)
def kron_gradient(ctx):
    man, ref = kron(ctx)
    x = ref.point(ctx, 4.)
    fa = LinearQuadraticLog(ctx, ref.a, ref.k, np.max(np.abs(x[0])))
    fb = LinearQuadraticLog(ctx, ref.b, ref.k, np.max(np.abs(x[1])))
    g = man.egrad2rgrad(x, tup(ctx, [fa.egrad(x[0]), fb.egrad(x[1])]))
    ref.RA.check_tangent(ctx, x[0], g[0], 'gradient in A')
    ref.RB.check_tangent(ctx, x[1], g[1], 'gradient in B')
    for _ in range(3):
        u = ref.tangent(ctx, x)
        d = first_derivative(lambda t: fa.value(ref.RA.exp(
            x[0], t*u[0]))+fb.value(ref.RB.exp(x[1], t*u[1])))
        s = 1+abs(d)+np.sqrt(ref.inner(x, g, g)*ref.inner(x, u, u))
        ctx.small((ref.inner(x, g, u)-d)/s, 1e-6,
                  'gradient is not dual to the Fisher metric', a=ref.a,
                  b=ref.b, k=ref.k, alpha=ref.alpha)
        ctx.small((man.inner(x, g, u)-d)/s, 1e-6,
                  'gradient is not dual to the inner product')
        ctx.event('directional derivatives compared')
    ctx.sig(ref.a, ref.b, ref.k, ref.alpha, float(d))


@C19.case(quick=40)
def kron_elements(ctx):
    man, ref = kron(ctx)
    x = man.rand()
    ref.RA.check_point(ctx, x[0], 'random A')
    ref.RB.check_point(ctx, x[1], 'random B')
    x, y = ref.point(ctx), ref.point(ctx)
    u = man.randvec(x)
    ref.RA.check_tangent(ctx, x[0], u[0], 'random vector in A')
    ref.RB.check_tangent(ctx, x[1], u[1], 'random vector in B')
    ctx.small(ref.inner(x, u, u)-1, 1e-8, 'random vector is not unit',
              a=ref.a, b=ref.b, k=ref.k, alpha=ref.alpha)
    v = ref.tangent(ctx, x)
    for name, z in (('exp', man.exp(x, v)), ('retraction', man.retr(x, v))):
        ref.RA.check_point(ctx, z[0], f'A of {name}')
        ref.RB.check_point(ctx, z[1], f'B of {name}')
    e = man.exp(x, v)
    ctx.small(ref.RA.dist(e[0], ref.RA.exp(x[0], v[0])), 1e-7, 'exp of A')
    ctx.small(ref.RB.dist(e[1], ref.RB.exp(x[1], v[1])), 1e-7, 'exp of B')
    lg = man.log(x, e)
    ctx.small(ref.RA.error(x[0], lg[0], v[0]), 1e-6, 'log of A')
    ctx.small(ref.RB.error(x[1], lg[1], v[1]), 1e-6, 'log of B')
    t = man.transp(x, y, v)
    ctx.small(ref.inner(y, t, t)/ref.inner(x, v, v)-1, 1e-6,
              'transport is not isometric')
    raw = [gen.randn(ctx.rng, np.shape(a), True) for a in x]
    p = man.proj(x, raw)
    ref.RA.check_tangent(ctx, x[0], p[0], 'projection in A')
    ref.RB.check_tangent(ctx, x[1], p[1], 'projection in B')
    ctx.sig(ref.a, ref.b, ref.k, ref.alpha, complex(u[0].flat[0]))


@C19.case(quick=30)
def kron_stacked(ctx):
    a, b, k = ctx.integers(2, 3), ctx.integers(1, 3), ctx.integers(2, 3)
    alpha = (a*b+2.)/(a*b+3.)
    man, one = KRON(a, b, alpha, k), KRON(a, b, alpha)
    ref = Fisher(a, b, alpha, k)
    x, y = ref.point(ctx), ref.point(ctx)
    u, v = ref.tangent(ctx, x), ref.tangent(ctx, x)
    eg = [gen.randn(ctx.rng, np.shape(z), True) for z in x]

    def at(z, i):
        return [z[0][i], z[1][i]]
    for name, full, single in (
            ('exp', man.exp(x, u), lambda i: one.exp(at(x, i), at(u, i))),
            ('log', man.log(x, y), lambda i: one.log(at(x, i), at(y, i))),
            ('retr', man.retr(x, u), lambda i: one.retr(at(x, i),
                                                        at(u, i))),
            ('egrad2rgrad', man.egrad2rgrad(x, eg),
             lambda i: one.egrad2rgrad(at(x, i), at(eg, i)))):
        for i in range(k):
            s = single(i)
            for j in (0, 1):
                ctx.close(full[j][i], s[j], 1e-7,
                          f'{name} does not act matrix by matrix')
    tot = sum(one.inner(at(x, i), at(u, i), at(v, i)) for i in range(k))
    s = 1+np.sqrt(ref.inner(x, u, u)*ref.inner(x, v, v))
    ctx.small((man.inner(x, u, v)-tot)/s, 1e-8,
              'inner is not the sum over matrices')
    dd = sum(one.dist(at(x, i), at(y, i))**2 for i in range(k))
    ctx.small((man.dist(x, y)**2-dd)/(1+dd), 1e-7,
              'squared distance is not the sum over matrices')
    ctx.sig(a, b, k, float(dd))


PROPS = {p.id: p for p in (C16, C17, C18, C19)}
