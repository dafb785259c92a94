"""C22: fitting is a pure function of the data and the parameters."""
import copy
import pickle

import numpy as np
from sklearn.base import clone

from .. import gen
from ..core import Prop
from ..lib import EMPIRICAL, TYLER, STUDENT, HUBER, TYLER_FP, TYLER_NG, \
    STUDENT_FP, HUBER_FP, structured, frozen, cov

C22 = Prop('C22', 'distinct (estimator, parameters, kind of history) whose '
           'fitted state was compared with that of a fresh estimator',
           assumptions=['the natural gradient started without an initial '
                        'point draws a random one from the global generator '
                        '(documented behaviour of its solver): those fits '
                        'are compared under the same seed'], scale=2)

KINDS = ('empirical', 'tyler', 'tyler ng', 'student', 'huber',
         'kron mm', 'kron student')


class Subject:
    """An estimator class with sampled constructor parameters."""

    def __init__(self, ctx, kind, cplx):
        self.ctx, self.kind, self.cplx = ctx, kind, cplx
        self.a = self.b = None
        if kind.startswith('kron'):
            self.cplx = True
            self.a, self.b = ctx.integers(1, 3), ctx.integers(1, 3)
        self.params = self.draw()

    @property
    def cls(self):
        return {'empirical': EMPIRICAL[self.cplx],
                'tyler': TYLER[self.cplx], 'tyler ng': TYLER[self.cplx],
                'student': STUDENT[self.cplx], 'huber': HUBER[self.cplx],
                'kron mm': structured.KroneckerEllipticalMM,
                'kron student': structured.KroneckerStudent}[self.kind]

    def draw(self):
        c = self.ctx
        if self.kind == 'empirical':
            return {'assume_centered': bool(c.integers(0, 1)),
                    'store_precision': bool(c.integers(0, 1))}
        loop = {'tol': c.pick((1e-2, 1e-4, 1e-8)),
                'iter_max': c.pick((2, 7, 100))}
        if self.kind == 'tyler':
            return {**loop, 'method': 'fixed-point', 'normalisation':
                    c.pick(('None', 'trace', 'determinant', 'element'))}
        if self.kind == 'tyler ng':
            return {'method': 'natural gradient', 'normalisation':
                    c.pick(('None', 'trace', 'determinant', 'element'))}
        if self.kind == 'student':
            return {**loop, 'df': c.pick((1., 2.5, 10.))}
        if self.kind == 'huber':
            return {**loop, 'q': c.pick((.3, .7, .95))}
        if self.kind == 'kron mm':
            return {**loop, 'a': self.a, 'b': self.b}
        return {'a': self.a, 'b': self.b, 'df': c.pick((2., 3., 12.)),
                'assume_centered': bool(c.integers(0, 1))}

    def make(self, **extra):
        p = {**self.params, **extra}
        if self.kind.startswith('kron'):
            args = [p.pop(k) for k in (('a', 'b') if 'mm' in self.kind
                                       else ('a', 'b', 'df'))]
            return self.cls(*args, **p)
        return self.cls(**p)

    def data(self, p=None):
        c = self.ctx
        p = self.a*self.b if self.a else p or c.integers(1, 4)
        n = c.integers(4*p+4, 4*p+26)
        return gen.samples(c.rng, n, p, self.cplx, c.pick(
            ('gauss', 't', 'gamma', 'skew')))*10.**c.rng.uniform(-1, 1)

    def init(self, p):
        c = self.ctx
        if self.kind in ('tyler', 'tyler ng', 'student', 'huber'):
            return gen.spd(c.rng, p, self.cplx, 5.)
        if self.kind == 'kron student':
            return (gen.spd(c.rng, self.a, True, 4.),
                    gen.spd(c.rng, self.b, True, 4.))
        return None

    def fit(self, est, X, init=None):
        """Returns what fit returned; ng without init under a fixed seed."""
        kw = {} if init is None else {'init': init}
        if self.kind == 'tyler ng' and init is None:
            kw = {'init': np.eye(X.shape[1], dtype=X.dtype)}
        return est.fit(X, **kw)


ATTRS = ('covariance_', 'precision_', 'location_', 'err_', 'iteration_',
         'A_', 'B_', 'n_features_in_')


def state(est):
    out = {}
    for k in ATTRS:
        if k in est.__dict__:
            v = est.__dict__[k]
            out[k] = np.array(v) if v is not None else None
    X = np.linspace(-1, 1, 3*len(est.covariance_)).reshape(3, -1)
    if np.iscomplexobj(est.covariance_):
        X = X+1j*X[::-1]
    out['mahalanobis'] = np.array(est.mahalanobis(X))
    return out


def same(ctx, a, b, msg, **kw):
    ctx.check(set(a) == set(b), msg+' (attributes)', left=sorted(a),
              right=sorted(b), **kw)
    for k in a:
        if a[k] is None or b[k] is None:
            ctx.check(a[k] is None and b[k] is None, f'{msg}: {k}', **kw)
        else:
            ctx.equal(a[k], b[k], f'{msg}: {k}', **kw)
    ctx.event('fitted states compared')


def subject(ctx, kinds=KINDS):
    kind, cplx = ctx.cyc(kinds, (False, True))
    s = Subject(ctx, kind, cplx)
    return s


def arrays(obj, seen=None):
    """Every array reachable from the attributes of an estimator."""
    out = []
    for v in vars(obj).values():
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, np.ndarray):
                out.append(x)
            elif isinstance(x, (list, tuple)):
                stack += list(x)
            elif isinstance(x, dict):
                stack += list(x.values())
    return out


def rng_state():
    s = np.random.get_state()
    return s[0], s[1].tobytes(), s[2:]


@C22.case(140)
def pure(ctx):
    """Data, initial point, generator and parameters are left alone."""
    s = subject(ctx)
    X = s.data()
    init = s.init(X.shape[1]) if ctx.rng.rand() < .6 else None
    layout = ctx.pick(('C', 'F', 'view', 'frozen'))
    if layout == 'F':
        D = np.array(X, order='F')
    elif layout == 'view':
        big = np.zeros((len(X)*2, X.shape[1]*2), X.dtype)
        big[::2, 1::2] = X
        D = big[::2, 1::2]
    else:
        D = X.copy()
    if layout == 'frozen':
        D = frozen(D)
    given = init
    if init is not None:
        given = tuple(np.array(i) for i in init) if isinstance(init, tuple) \
            else np.array(init)
        if layout == 'frozen':
            given = tuple(frozen(i) for i in init) \
                if isinstance(init, tuple) else frozen(init)
    est = s.make()
    before = copy.deepcopy(est.get_params())
    np.random.randn(ctx.integers(0, 3))      # maybe a cached Gaussian
    r = rng_state()
    py = __import__('random').getstate()
    back = s.fit(est, D, given)
    ctx.check(back is est, 'fit returns the estimator')
    ctx.check(rng_state() == r, 'the global generator is not consumed',
              kind=s.kind)
    ctx.check(__import__('random').getstate() == py,
              'the generator of the standard library is not consumed')
    ctx.equal(np.array(D), X, 'the data is not modified', layout=layout)
    inits = [] if init is None else \
        list(zip(given, init)) if isinstance(init, tuple) else [(given, init)]
    for g, i in inits:
        ctx.equal(g, i, 'the initial point is not modified')
    ctx.check(est.get_params() == before, 'the parameters are not modified',
              got=est.get_params())
    for arr in arrays(est):
        ctx.check(not np.shares_memory(arr, D) and
                  not any(np.shares_memory(arr, g) for g, _ in inits),
                  'fitted attributes do not share memory with the input',
                  kind=s.kind, cplx=s.cplx, layout=layout, init=init is None)
    was = state(est)
    if layout != 'frozen':
        D[...] = 3.
        for g, _ in inits:
            g[...] = np.eye(len(g))
        same(ctx, state(est), was, 'state after the caller reused its arrays')
    # ... and the result does not depend on the layout of the data
    ref = s.make()
    s.fit(ref, X, init)
    if layout in ('C', 'frozen'):
        same(ctx, was, state(ref), 'fit on a copy of the data')
    else:
        # (iterative solvers amplify rounding up to their own accuracy, and
        # the scale of Tyler's estimate is arbitrary)
        shape = gen.shape_of if s.kind == 'tyler ng' else (lambda m: m)
        ctx.close(shape(was['covariance_']), shape(ref.covariance_),
                  1e-2 if s.kind in ('kron student', 'tyler ng') else 1e-8,
                  'fit does not depend on the memory layout', kind=s.kind,
                  cplx=s.cplx, layout=layout, params=s.params)
    ctx.sig('pure', s.kind, s.cplx, X.shape[1], layout, init is not None,
            s.params)
    ctx.sample(estimator=s.cls.__name__, params=s.params, layout=layout,
               init=init is not None)


@C22.case(112)
def histories(ctx):
    """Random histories of fits, parameter changes, scoring and copies end in
    the state of a fresh estimator with the last parameters and data."""
    s = subject(ctx)
    est = s.make()
    pool = [(s.data(), None) for _ in range(3)]
    pool += [(X, s.init(X.shape[1])) for X, _ in pool[:2]]
    last, ops = None, []
    for step in range(ctx.integers(3, 7)):
        op = ctx.pick(('fit', 'fit', 'params', 'score', 'copy', 'pickle',
                       'random', 'use'))
        ops.append(op)
        if op == 'fit':
            last = ctx.pick(pool)
            s.fit(est, frozen(last[0]), last[1])
        elif op == 'params':
            new = s.draw()
            change = {k: v for k, v in new.items() if ctx.rng.rand() < .6}
            s.params = {**s.params, **change}
            r = est.set_params(**change)
            ctx.check(r is est, 'set_params returns the estimator')
            last = None
        elif op == 'score' and last is not None:
            try:
                est.score(ctx.pick([x for x, _ in pool
                                    if x.shape[1] == last[0].shape[1]]))
            except NotImplementedError:
                pass
            last2 = s.make()
            s.fit(last2, last[0], last[1])
            same(ctx, state(est), state(last2), 'scoring changes nothing')
        elif op == 'copy':
            est = copy.deepcopy(est)
        elif op == 'pickle':
            est = pickle.loads(pickle.dumps(est))
        elif op == 'random':
            np.random.randn(3)
        elif op == 'use' and last is not None:
            est.mahalanobis(last[0])
            est.get_precision()
            est.error_norm(np.eye(last[0].shape[1]))
    last = ctx.pick(pool)
    s.fit(est, frozen(last[0]), last[1])
    fresh = s.make()
    s.fit(fresh, last[0], last[1])
    same(ctx, state(est), state(fresh), 'state after a history', ops=ops,
         kind=s.kind, params=s.params)
    ctx.sig('history', s.kind, s.cplx, ops)


@C22.case(84)
def copies(ctx):
    """Clones, deep copies and unpickled copies are equal, and independent."""
    s = subject(ctx)
    est = s.make()
    X, Y = s.data(), s.data()
    fitted = bool(ctx.integers(0, 1))
    if fitted:
        s.fit(est, X, None)
    was = state(est) if fitted else None
    how = ctx.pick(('deepcopy', 'pickle', 'clone', 'copy'))
    twin = {'deepcopy': copy.deepcopy, 'clone': clone, 'copy': copy.copy,
            'pickle': lambda e: pickle.loads(pickle.dumps(e))}[how](est)
    ctx.check(twin.get_params() == est.get_params(),
              f'a {how} has the same parameters')
    if how == 'clone':
        ctx.check(not hasattr(twin, 'covariance_'), 'a clone is not fitted')
    elif fitted:
        same(ctx, state(twin), was, f'a {how} has the same fitted state')
    # the copy evolves: the original does not notice (and conversely)
    new = s.draw()
    change = {k: v for k, v in new.items() if ctx.rng.rand() < .7}
    twin.set_params(**change)
    s.fit(twin, frozen(Y), None)
    if fitted:
        same(ctx, state(est), was, 'the original does not follow its copy')
    other = Subject.__new__(Subject)
    other.__dict__.update(s.__dict__)
    other.params = {**s.params, **change}
    ref = other.make()
    other.fit(ref, Y, None)
    tw = state(ref)
    same(ctx, state(twin), tw, f'a {how} uses its own parameters', how=how,
         change=change, kind=s.kind)
    s.fit(est, frozen(Y), None)
    same(ctx, state(twin), tw, 'the copy does not follow the original')
    ref = s.make()
    s.fit(ref, Y, None)
    same(ctx, state(est), state(ref), 'the original keeps its parameters')
    for x in arrays(est):
        for y in arrays(twin):
            if how != 'copy':
                ctx.check(not np.shares_memory(x, y),
                          'copies share no memory')
    ctx.sig('copies', s.kind, s.cplx, how, fitted, sorted(change))


@C22.case(84)
def parameters(ctx):
    """set_params is the same as construction, one parameter at a time."""
    s = subject(ctx)
    est = s.make()
    X = s.data()
    if ctx.rng.rand() < .5:
        s.fit(est, X, None)
    for k in sorted(s.params):
        for _ in range(4):
            v = s.draw()[k]
            if v != s.params[k]:
                break
        est.set_params(**{k: v})
        s.params = {**s.params, k: v}
        if k == 'method':
            continue
        ctx.check(est.get_params()[k] == v, 'parameter is set')
        s.fit(est, X, None)
        ref = s.make()
        s.fit(ref, X, None)
        same(ctx, state(est), state(ref), f'set_params({k}) and constructor',
             param=k, kind=s.kind)
        ctx.sig('set_params', s.kind, s.cplx, k, v)
    if s.kind.startswith('tyler'):
        # switching the method back and forth
        init = s.init(X.shape[1])
        order = [ctx.pick(('fixed-point', 'natural gradient'))
                 for _ in range(3)]
        for m in order:
            est.set_params(method=m)
            est.fit(X, init=init)
            ref = s.cls(**{**est.get_params(), 'method': m}).fit(X, init=init)
            same(ctx, state(est), state(ref), 'switching the method',
                 order=order)
    if s.kind == 'kron student':
        est.set_params(a=s.b, b=s.a)
        est.fit(X)
        ref = s.cls(**est.get_params()).fit(X)
        same(ctx, state(est), state(ref), 'exchanging the factor sizes')


@C22.case(56)
def verbosity(ctx):
    s = subject(ctx, tuple(k for k in KINDS if k != 'empirical'))
    X = s.data()
    init = s.init(X.shape[1]) if ctx.integers(0, 1) else None
    loud = s.make(verbosity=2 if s.kind == 'kron student' else True)
    quiet = s.make(verbosity=0 if s.kind == 'kron student' else False)
    for _ in range(ctx.integers(1, 2)):
        s.fit(loud, frozen(X), init)
    s.fit(quiet, frozen(X), init)
    same(ctx, state(loud), state(quiet), 'verbosity does not change results')
    ctx.sig('verbosity', s.kind, s.cplx, X.shape[1], init is not None)


@C22.case(70)
def functions(ctx):
    """The algorithms as functions: same contract."""
    cplx, which = ctx.cyc((False, True), ('tyler', 'ng', 'student', 'huber',
                                          'mm'))
    s = Subject(ctx, 'tyler', cplx)
    X = s.data()
    p = X.shape[1]
    init = gen.spd(ctx.rng, p, cplx, 5.) if which == 'ng' or \
        ctx.integers(0, 1) else None
    norm = ctx.pick(('None', 'trace', 'determinant', 'element'))
    kw = {'tol': ctx.pick((1e-1, 1e-6)), 'iter_max': ctx.pick((1, 2, 50))}
    call = {
        'tyler': lambda d, i: TYLER_FP[cplx](d, init=i, normalisation=norm,
                                             **kw),
        'ng': lambda d, i: TYLER_NG[cplx](d, init=i, normalisation=norm),
        'student': lambda d, i: STUDENT_FP[cplx](d, 2.5, init=i, **kw),
        'huber': lambda d, i: HUBER_FP[cplx](d, .8, init=i, **kw),
        'mm': lambda d, i: structured.estimation_cov_kronecker_MM(
            d, 1, p, **kw)}[which]
    D = frozen(X)
    I = None if init is None else frozen(init)
    r = rng_state()
    one = call(D, I)
    ctx.check(rng_state() == r, 'the global generator is not consumed')
    ctx.equal(D, X, 'the data is not modified')
    if init is not None:
        ctx.equal(I, init, 'the initial point is not modified')
    two = call(X.copy(), None if init is None else init.copy())
    for a, b in zip(one, two):
        if a is not None:
            ctx.equal(a, b, 'same result on the same input')
        if isinstance(a, np.ndarray):
            ctx.check(not np.shares_memory(a, D) and
                      (I is None or not np.shares_memory(a, I)),
                      'results do not share memory with the input')
            ctx.check(a.flags.writeable, 'the result belongs to the caller')
    ctx.sig('function', which, cplx, p, init is not None, norm)


@C22.case(28)
def random_start(ctx):
    """Without an initial point the natural gradient starts at random: a
    function of the state of the global generator, which is not reseeded."""
    cplx = bool(ctx.cyc((0, 1)))
    s = Subject(ctx, 'tyler ng', cplx)
    X = s.data()
    p = X.shape[1]
    seed = ctx.integers(0, 10**6)
    out = []
    for _ in range(2):
        np.random.seed(seed)
        out.append(s.make().fit(frozen(X)).covariance_)
        out.append(np.random.randn())
    ctx.equal(out[0], out[2], 'same seed, same result')
    ctx.check(out[1] == out[3], 'same draws from the generator')
    # another seed gives another continuation of the stream: not reseeded
    np.random.seed(seed+1)
    s.make().fit(X)
    ctx.check(np.random.randn() != out[1], 'the generator is not reseeded')
    ref = s.make()
    s.fit(ref, X, gen.spd(ctx.rng, p, cplx, 3.))
    shape = gen.shape_of
    ctx.small(gen.whitened_error(shape(ref.covariance_), shape(out[0])), 1e-2,
              'the random start is forgotten')
    ctx.sig('random start', cplx, p, s.params)


@C22.case(28)
def interleaved(ctx):
    """Several estimators used in turn do not influence each other."""
    subjects = [Subject(ctx, ctx.pick(KINDS), bool(ctx.integers(0, 1)))
                for _ in range(3)]
    data = [[s.data() for _ in range(2)] for s in subjects]
    ests = [s.make() for s in subjects]
    for step in range(6):
        i = ctx.integers(0, 2)
        subjects[i].fit(ests[i], frozen(ctx.pick(data[i])), None)
    for s, e, d in zip(subjects, ests, data):
        s.fit(e, d[0], None)
    for s, e, d in zip(subjects, ests, data):
        ref = s.make()
        s.fit(ref, d[0], None)
        same(ctx, state(e), state(ref), 'interleaved use of estimators')
    ctx.sig('interleaved', [(s.kind, s.cplx) for s in subjects])


PROPS = {'C22': C22}
