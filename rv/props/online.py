"""C23: the online estimator follows the stochastic gradient recursion."""
import copy
import logging
import pickle

import numpy as np
from sklearn.base import clone

from .. import gen
from ..core import Prop
from ..lib import manifolds, online, frozen, log_records

SG = online.StochasticGradientCovarianceEstimator

C23 = Prop('C23', 'distinct (manifold, parameter container, schedule, kind of '
           'history) followed step by step by a reference recursion',
           assumptions=['the step is +rate * direction: the direction given '
                        'by the user is the one to follow',
                        'the iteration number goes on through successive '
                        'updates and restarts with each fit'],
           scale=4)


class Recorder:
    """Event log of the calls that the estimator makes to its parts."""

    def __init__(self):
        self.log = []
        self.shared = []    # (object exchanged with the estimator, copy)

    def exchanged(self, x):
        self.shared.append((x, snap(x)))

    def __deepcopy__(self, memo):
        return self


def snap(x):
    if isinstance(x, (list, tuple)):
        return type(x)(np.array(i) for i in x) if type(x) in (list, tuple) \
            else [np.array(i) for i in x]
    return np.array(x)


def parts(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Euclid:
    """Vector space: the retraction is the sum."""

    def retr(self, x, u):
        if isinstance(x, (list, tuple)):
            return type(x)(a+b for a, b in zip(x, u))
        return x+u


class Watched:
    """A manifold that logs its retractions."""

    def __init__(self, inner, rec):
        self.inner, self.rec = inner, rec

    def retr(self, x, u):
        kind = type(u)
        out = self.inner.retr(x, u)
        self.rec.exchanged(out)
        self.rec.log.append(('retr', snap(x), snap(u), snap(out), kind))
        return out


class Problem:
    """A manifold, a direction field and initial points."""

    def __init__(self, ctx, kind=None):
        self.ctx = ctx
        self.kind = kind or ctx.pick(('hpd', 'shpd', 'kron', 'product',
                                      'euclid', 'tuple'))
        self.p = p = ctx.integers(1 if self.kind in ('euclid', 'tuple')
                                  else 2, 4)
        self.count = ctx.pick((2, 2, 3, 4))     # components, if several
        self.rec = Recorder()
        self.tocov = None
        if self.kind == 'hpd':
            m = manifolds.HermitianPositiveDefinite(p)
        elif self.kind == 'shpd':
            m = manifolds.SpecialHermitianPositiveDefinite(p)
        elif self.kind == 'kron':
            self.a, self.b = ctx.integers(2, 3), ctx.integers(1, 3)
            self.p = self.a*self.b
            m = manifolds.KroneckerHermitianPositiveElliptical(
                self.a, self.b, .9)
            self.tocov = lambda t: np.kron(t[0], t[1])
        elif self.kind == 'product':
            m = manifolds.WeightedProduct(
                tuple(manifolds.HermitianPositiveDefinite(p)
                      for _ in range(self.count)),
                tuple(1.+i for i in range(self.count)))
            self.tocov = lambda t: sum(t)
        else:
            m = Euclid()
            if self.kind == 'tuple':
                self.tocov = lambda t: t[0]@t[0].conj().T+np.diag(sum(t[1:]))
        self.inner = m
        self.manifold = Watched(m, self.rec)
        self.container = ctx.pick((list, tuple))

    def point(self):
        r = self.ctx.rng
        if self.kind == 'kron':
            A, B = gen.spd(r, self.a, True, 4.), gen.spd(r, self.b, True, 4.)
            A = A/np.exp(np.linalg.slogdet(A)[1]/self.a)
            return self.container([A, B])
        if self.kind == 'product':
            return self.container([gen.spd(r, self.p, True, 4.)
                                   for _ in range(self.count)])
        if self.kind == 'tuple':
            return self.container([gen.randn(r, (self.p, self.p), True)] +
                                  [r.rand(self.p)+1.
                                   for _ in range(self.count-1)])
        M = gen.spd(r, self.p, True, 4.)
        if self.kind == 'shpd':
            M = M/np.exp(np.linalg.slogdet(M)[1]/self.p)
        return M

    def field(self, X, theta):
        """A bounded direction that depends on the sample and the point."""
        S = X.T@X.conj()
        S = S/(1+np.real(np.trace(S)))
        if self.kind == 'hpd':
            r = gen.powm(gen.herm_part(theta), .5)
            return gen.herm_part(r@(S-.3*np.eye(self.p))@r)
        if self.kind == 'shpd':
            r = gen.powm(gen.herm_part(theta), .5)
            return gen.herm_part(r@(S-np.trace(S)/self.p*np.eye(self.p))@r)
        if self.kind in ('kron', 'product'):
            A = theta[0]
            t = np.real(np.trace(S))
            out = [gen.herm_part(A*0.2*t)]
            out += [gen.herm_part(B*(t-.4*i))
                    for i, B in enumerate(theta[1:], 1)]
            if self.kind == 'kron':
                d = np.diag(np.abs(X[0, :self.a]))/(1+np.abs(X).max())
                d = d-np.trace(d)/self.a*np.eye(self.a)
                r = gen.powm(gen.herm_part(A), .5)
                out[0] = gen.herm_part(r@d@r)
            return self.container(out)
        if self.kind == 'tuple':
            return self.container([S-.1*theta[0]] + [
                i*np.abs(X[0])/(1+np.abs(X).max())
                for i in range(1, self.count)])
        return S-.5*theta

    def rgrad(self, X, theta):
        out = self.field(X, theta)
        self.rec.exchanged(out)
        self.rec.log.append(('rgrad', np.array(X), snap(theta), snap(out),
                             (X.shape, X.dtype)))
        return out

    def stream(self, n, cplx=True):
        X = gen.samples(self.ctx.rng, n, self.p, cplx, self.ctx.pick(
            ('gauss', 't', 'gamma', 'skew')))
        if self.ctx.rng.rand() < .2:
            X = np.asfortranarray(X)
        elif self.ctx.rng.rand() < .1:
            X = np.repeat(X, 2, axis=1)[:, ::2]
        elif self.ctx.rng.rand() < .1:
            X[self.ctx.rng.rand(n) < .3] = 0
        return X

    def make(self, rate, **kw):
        return SG(self.manifold, self.rgrad, rate, estimatetocov=self.tocov,
                  **kw)

    def cov(self, theta):
        return theta if self.tocov is None else self.tocov(theta)


def equal_points(ctx, got, want, msg, tol=0., **kw):
    g, w = parts(got), parts(want)
    ctx.check(len(g) == len(w), msg+' (number of components)', **kw)
    for i, (x, y) in enumerate(zip(g, w)):
        if tol:
            ctx.close(x, y, tol, msg, component=i, **kw)
        else:
            ctx.equal(x, y, msg, component=i, **kw)


def judge_state(ctx, est, pb, theta, **kw):
    equal_points(ctx, est.estimate_, theta, 'estimate follows the recursion',
                 tol=1e-12, **kw)
    C = pb.cov(est.estimate_)
    ctx.close(est.covariance_, C, 1e-14,
              'covariance is the image of the estimate', **kw)
    ctx.check(np.iscomplexobj(est.covariance_), 'covariance is complex')
    ctx.equal(est.location_, np.zeros(pb.p, dtype=complex), 'location is zero')


class Follow:
    """The reference recursion, advanced sample by sample."""

    def __init__(self, pb, rate):
        self.pb, self.rate = pb, rate
        self.k, self.theta = 0, None

    def step(self, x, schedule):
        u = self.pb.field(x.reshape(1, -1), self.theta)
        t = self.rate/(self.k+1) if schedule == 'inverse iteration' \
            else self.rate
        u = type(u)(t*i for i in u) if isinstance(u, (list, tuple)) else t*u
        self.theta = self.pb.inner.retr(self.theta, u)
        self.k += 1


def judge_log(ctx, pb, first, X, thetas, rates):
    """The recorded calls are exactly those of the recursion."""
    log = pb.rec.log[first:]
    ctx.check(len(log) == 2*len(X), 'one direction and one retraction per '
              'sample', got=len(log), want=2*len(X))
    for k, x in enumerate(X):
        g, r = log[2*k], log[2*k+1]
        ctx.check(g[0] == 'rgrad' and r[0] == 'retr', 'order of the calls')
        ctx.check(g[4] == ((1, pb.p), X.dtype), 'one sample per direction, '
                  'as it is', got=str(g[4]))
        ctx.equal(g[1][0], x, 'samples in order, each once', step=k)
        equal_points(ctx, g[2], thetas[k], 'direction at the current point',
                     1e-12, step=k)
        equal_points(ctx, r[1], g[2], 'retraction from the current point')
        want = [rates[k]*i for i in parts(g[3])]
        equal_points(ctx, r[2], want, 'step is the rate times the direction',
                     1e-14, step=k, rate=rates[k])
        if r[4] in (list, tuple):
            ctx.check(r[4] is type(g[3]), 'step of the type of the direction')
    for x, was in pb.rec.shared:
        equal_points(ctx, x, was, 'directions and points given by the user '
                     'are not modified')
    ctx.event('calls checked against the recursion', len(log))


SCHEDULES = ('inverse iteration', 'constant')


@C23.case(120)
def stream(ctx):
    """One fit, or as many updates, step by step."""
    pb = Problem(ctx, ctx.cyc(('hpd', 'shpd', 'kron', 'product', 'euclid',
                               'tuple')))
    rate, how = ctx.pick((.05, .3, .9)), ctx.pick(SCHEDULES)
    X = pb.stream(ctx.integers(1, 25), bool(ctx.integers(0, 3)))
    init = pb.point()
    keep = snap(init)
    ref = Follow(pb, rate)
    ref.theta = snap(init)
    thetas, rates = [], []
    for k, x in enumerate(X):
        thetas.append(snap(ref.theta))
        rates.append(rate/(k+1) if how == 'inverse iteration' else rate)
        ref.step(x, how)
    est = pb.make(rate)
    n0 = len(pb.rec.log)
    mode = ctx.pick(('fit', 'default', 'update'))
    if mode == 'update':
        est.set_estimate(init)
        equal_points(ctx, est.estimate_, keep, 'set estimate')
        for k, x in enumerate(X):
            ctx.check(est.update(x.reshape(1, -1), how) is est,
                      'update returns the estimator')
            ctx.check(est.covariance_ is not None, 'covariance is set')
            if k+1 < len(X):
                judge_state(ctx, est, pb, thetas[k+1], mode=mode, step=k)
    elif mode == 'default' and how == 'inverse iteration':
        ctx.check(est.fit(frozen(X), init=init) is est, 'fit returns self')
    else:
        ctx.check(est.fit(frozen(X), init=init, lr_update=how) is est,
                  'fit returns self')
    judge_log(ctx, pb, n0, X, thetas, rates)
    judge_state(ctx, est, pb, ref.theta, mode=mode, kind=pb.kind)
    equal_points(ctx, init, keep, 'the initial point is not modified')
    ctx.event('steps followed', len(X))
    ctx.sig(pb.kind, pb.container.__name__, how, mode, len(X), pb.p,
            len(parts(init)))
    ctx.sample(manifold=pb.kind, schedule=how, mode=mode, samples=len(X),
               rate=rate)


@C23.case(96)
def histories(ctx):
    """Fits, updates, copies and parameter changes in any order."""
    pb = Problem(ctx)
    rate = ctx.pick((.1, .5))
    est = pb.make(rate)
    ref = Follow(pb, rate)
    ops = []
    for step in range(ctx.integers(3, 8)):
        op = ctx.pick(('fit', 'set')) if step == 0 else ctx.pick(('fit', 'fit', 'update', 'update', 'set', 'rate',
                       'copy', 'read'))
        ops.append(op)
        how = ctx.pick(SCHEDULES)
        if op == 'fit':
            X, init = pb.stream(ctx.integers(1, 8)), pb.point()
            est.fit(X, init=init, lr_update=how)
            ref.theta, ref.k = snap(init), 0
            for x in X:
                ref.step(x, how)
        elif op == 'update' and ref.theta is not None:
            for x in pb.stream(ctx.integers(1, 4)):
                est.update(x.reshape(1, -1), how)
                ref.step(x, how)
        elif op == 'set' and ref.k == 0:
            ref.theta = pb.point()
            est.set_estimate(snap(ref.theta))
        elif op == 'rate':
            ref.rate = ctx.pick((.05, .2, .4))
            est.set_params(lrate=ref.rate)
        elif op == 'copy':
            est = copy.deepcopy(est)
        elif op == 'read' and ref.theta is not None:
            est.mahalanobis(pb.stream(2))
            est.error_norm(np.eye(pb.p))
            repr(est)
        if ref.theta is not None:
            judge_state(ctx, est, pb, ref.theta, ops=ops, kind=pb.kind)
    ctx.sig('history', pb.kind, ops)


@C23.case(48)
def unset(ctx):
    """Updates before any initial point change nothing and are logged."""
    pb = Problem(ctx)
    est = pb.make(.3)
    if ctx.integers(0, 1):
        est = clone(est)
    before = dict(est.__dict__)
    X = pb.stream(3)
    with log_records(logging.ERROR) as records:
        back = est.update(frozen(X[:1]), ctx.pick(SCHEDULES))
        est.update(frozen(X[1:2]), 'inverse iteration')
    ctx.check(back is est, 'update returns the estimator')
    ctx.check(len(records) == 2, 'each refused update is logged',
              got=len(records))
    ctx.check(est.__dict__ == before, 'nothing changed',
              got=sorted(est.__dict__))
    ctx.check(est.estimate_ is None and not hasattr(est, 'covariance_'),
              'no estimate appears')
    ctx.check(not pb.rec.log, 'no direction is asked for')
    # the refused updates did not count as iterations
    ref = Follow(pb, .3)
    ref.theta = pb.point()
    est.set_estimate(snap(ref.theta))
    for x in X:
        est.update(x.reshape(1, -1), 'inverse iteration')
        ref.step(x, 'inverse iteration')
    judge_state(ctx, est, pb, ref.theta)
    ctx.sig('unset', pb.kind, pb.p)


@C23.case(48)
def running_mean(ctx):
    """Closed form: with direction xx^H - theta and unit rate decreasing as
    1/k, the estimate is the empirical covariance of the samples so far."""
    p = ctx.integers(1, 5)
    X = gen.samples(ctx.rng, ctx.integers(2, 60), p, True, ctx.pick(gen.LAWS))
    est = SG(Euclid(), lambda x, t: x.T@x.conj()-t, 1.)
    init = gen.spd(ctx.rng, p, True)
    if ctx.integers(0, 1):
        est.fit(X, init=init)
    else:
        est.set_estimate(init)
        for k in range(len(X)):
            est.update(X[k:k+1], 'inverse iteration')
    S = X.T@X.conj()/len(X)
    ctx.close(est.covariance_, S, 1e-10, 'running mean of the samples')
    # exponential forgetting with a constant rate
    a = ctx.pick((.05, .3))
    est = SG(Euclid(), lambda x, t: x.T@x.conj()-t, a)
    est.fit(X, init=init, lr_update='constant')
    w = a*(1-a)**np.arange(len(X)-1, -1, -1)
    want = (X.T*w)@X.conj()+(1-a)**len(X)*init
    ctx.close(est.covariance_, want, 1e-10, 'exponential forgetting')
    ctx.event('closed forms compared', 2)
    ctx.sig('closed form', p, len(X))


@C23.case(12)
def long_streams(ctx):
    """Thousands of samples, in one fit or by successive updates."""
    how, mode = ctx.cyc(SCHEDULES, ('fit', 'update', 'both'))
    p = ctx.integers(1, 2)
    n = ctx.integers(1030, 2600)
    X = gen.samples(ctx.rng, n, p, True, ctx.pick(('gauss', 't', 'skew')))
    rate = ctx.pick((.3, 1.))
    steps = []

    def direction(x, t):
        return x.T@x.conj()-t

    class Manifold:
        def retr(self, x, u):
            steps.append(u)
            return x+u
    est = SG(Manifold(), direction, rate, verbosity=ctx.pick([False, True]))
    theta = init = gen.spd(ctx.rng, p, True)
    k = {'fit': n, 'update': 0, 'both': n-ctx.integers(5, 900)}[mode]
    if k:
        est.fit(X[:k], init=init, lr_update=how)
    else:
        est.set_estimate(init)
    for x in X[k:]:
        est.update(x.reshape(1, -1), how)
    ctx.check(len(steps) == n, 'one step per sample', got=len(steps), want=n)
    for i, x in enumerate(X):
        t = rate/(i+1) if how == 'inverse iteration' else rate
        u = t*(np.outer(x, x.conj())-theta)
        ctx.small(np.abs(steps[i]-u).max(), 1e-9*(np.abs(theta).max() +
                  np.sum(np.abs(x)**2))*t, 'step is the rate times the '
                  'direction', step=i, how=how, mode=mode)
        theta = theta+steps[i]
    ctx.close(est.estimate_, theta, 1e-9, 'estimate follows the recursion')
    ctx.event('steps followed', n)
    ctx.sig('long', how, mode, p, n)


@C23.case(36)
def verbose_and_cost(ctx):
    """Monitoring the cost or showing progress changes nothing."""
    pb = Problem(ctx)
    X, init = pb.stream(ctx.integers(2, 9)), pb.point()
    seen = []

    def cost(D, theta):
        seen.append(snap(theta))
        return 1.
    quiet = pb.make(.2).fit(X, init=snap(init))
    loud = pb.make(.2, cost=cost, verbosity=True).fit(X, init=snap(init))
    equal_points(ctx, loud.estimate_, quiet.estimate_,
                 'verbosity does not change the estimate')
    for t in seen[-1:]:
        equal_points(ctx, t, loud.estimate_, 'cost at the current estimate')
    other = pb.make(.2, verbosity=True).fit(X, init=snap(init))
    equal_points(ctx, other.estimate_, quiet.estimate_,
                 'verbosity without cost')
    ctx.event('costs observed', len(seen))
    ctx.sig('verbose', pb.kind, len(X))


@C23.case(24)
def statistical(ctx):
    """On the Hermitian manifold the recursion finds the covariance."""
    p = ctx.integers(2, 4)
    S = gen.spd(ctx.rng, p, True, 5.)
    n = 3000
    X = gen.samples(ctx.rng, n, p, True, root=np.linalg.cholesky(S))
    est = SG(manifolds.HermitianPositiveDefinite(p),
             lambda x, t: x.T@x.conj()-t, .9)
    est.fit(X, init=gen.spd(ctx.rng, p, True, 3., .5))
    ctx.small(gen.whitened_error(S, est.covariance_), .5,
              'online estimate close to the covariance of the stream')
    ctx.sig('statistical', p)


PROPS = {'C23': C23}
