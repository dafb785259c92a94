"""C20 feature arrays against a list model; C21 batch estimation."""
import contextlib
import copy
import sys
import threading
import time

import joblib
import numpy as np
from sklearn.base import BaseEstimator, TransformerMixin, clone
from sklearn.covariance import MinCovDet, LedoitWolf

from .. import gen
from ..core import Prop
from ..lib import base, cov, structured, EMPIRICAL, TYLER, STUDENT, HUBER, \
    frozen

FA = base._FeatureArray

C20 = Prop('C20', 'distinct (manifolds, operation, length class, growth) '
           'states of a history compared with the list model',
           assumptions=['a batch of one element is exported without its batch '
                        'dimension (documented behaviour of export)',
                        'export returns views of the stored data'])

DTYPES = ('float64', 'complex128', 'float32', 'int64')
SHAPES = ((3, 3), (2,), (4, 4), (1, 1), (2, 3), (), (1,), (2, 2, 2), (5, 2))


class Element:
    """Generator of elements of one manifold, possibly with a symmetry."""

    def __init__(self, ctx, shape=None):
        self.rng = ctx.rng
        self.shape = ctx.pick(SHAPES) if shape is None else shape
        self.dtype = np.dtype(ctx.pick(DTYPES))
        self.kind = ctx.pick(('any', 'sym', 'skew', 'mixed', 'nearly',
                              'almost', 'transpose', 'late'))
        self.count = 0

    def one(self):
        r = self.rng
        x = r.randint(-40, 41, self.shape)/4.
        if self.dtype.kind == 'c':
            x = x + 1j*r.randint(-40, 41, self.shape)/4.
        if self.dtype.kind == 'i':
            x = r.randint(-99, 100, self.shape)
        x = np.array(x, dtype=self.dtype)
        if len(self.shape) == 2 and self.shape[0] == self.shape[1]:
            kind = self.kind
            self.count += 1
            if kind == 'mixed':
                kind = ('any', 'sym', 'skew')[r.randint(3)]
            if kind == 'late':      # symmetric, until one element is not
                kind = 'any' if self.count > 4 else 'sym'
            if kind in ('sym', 'nearly', 'almost'):
                x = x+x.conj().T
            elif kind == 'skew':
                x = x-x.conj().T
            elif kind == 'transpose':   # symmetric but, if complex, not
                x = x+x.T               # Hermitian
            if kind == 'nearly' and self.dtype == np.float64:
                x = x+1e-9*r.uniform(-1, 1, self.shape)
            if kind == 'almost' and self.dtype.kind in 'fc':
                # not symmetric: one entry is off by more than the tolerance,
                # however large the entries are
                if self.dtype != np.float32:
                    x = x*10.**r.choice([0, 0, 4, 6])
                i, j = r.randint(len(x), size=2)
                x[i, j] += 10.**r.uniform(-3.9, -1)
        return x

    def batch(self, n):
        return np.array([self.one() for _ in range(n)],
                        dtype=self.dtype).reshape((n,)+self.shape)


class Model:
    """Plain lists of elements, one per manifold."""

    def __init__(self, shapes, cols=None):
        self.shapes = [tuple(s) for s in shapes]
        self.cols = cols or [[] for _ in shapes]

    def __len__(self):
        return len(self.cols[0])

    def append(self, batches):
        for c, b in zip(self.cols, batches):
            c.extend(np.array(x) for x in b)

    def get(self, key):
        idx = np.arange(len(self))[key]
        idx = np.atleast_1d(idx)
        return Model(self.shapes, [[c[i] for i in idx] for c in self.cols])

    def arrays(self):
        return [np.array(c).reshape((len(self),)+s) if len(c) else None
                for c, s in zip(self.cols, self.shapes)]

    def vectorize(self):
        out = []
        for a in self.arrays():
            n = len(a)
            if a.ndim == 3 and a.shape[1] == a.shape[2]:
                t = [x.conj().T for x in a]
                sym = all(np.all(np.abs(x-y) < 1e-5) for x, y in zip(a, t))
                skew = all(np.all(np.abs(x+y) < 1e-5) for x, y in zip(a, t))
                if sym or skew:
                    p = a.shape[1]
                    out.append(np.array(
                        [[x[i, j] for i in range(p) for j in range(i, p)]
                         for x in a]))
                    continue
            out.append(np.array([x.ravel() for x in a]).reshape(n, -1))
        return np.concatenate(out, axis=1)


def length_class(n):
    return 'empty' if n == 0 else 'one' if n == 1 else \
        f'<={1000*(1+(n-1)//1000)}' if n > 20 else 'few'


def compare(ctx, fa, model, what, vector=True, **kw):
    n = len(model)
    ctx.check(len(fa) == n, f'length after {what}', got=len(fa), want=n, **kw)
    ctx.check(fa.nb_manifolds == len(model.shapes), 'number of manifolds')
    ctx.event('states compared with the list model')
    ctx.sig(len(model.shapes), what.split(':')[0], length_class(n))
    if n == 0:
        return
    want = model.arrays()
    ctx.check(tuple(fa.shape) == tuple(a.shape for a in want),
              f'shape after {what}', got=fa.shape, **kw)
    ctx.check(fa.dtype == tuple(a.dtype for a in want),
              f'dtype after {what}', got=str(fa.dtype), **kw)
    out = fa.export()
    out = [out] if len(want) == 1 else out
    ctx.check(len(out) == len(want), 'one exported array per manifold')
    for o, w in zip(out, want):
        w = w[0] if n == 1 else w
        ctx.check(o.dtype == w.dtype, f'exported dtype after {what}')
        ctx.equal(o, w, f'exported elements after {what}', **kw)
    if vector:
        ctx.equal(fa.vectorize(), model.vectorize(),
                  f'vectorisation after {what}', **kw)
    ctx.check(isinstance(str(fa), str) and isinstance(repr(fa), str), 'str')


def payload(ctx, batches, single):
    """The forms in which the same elements may be handed to append."""
    items = [np.array(b[0]) for b in batches] if single else list(batches)
    if ctx.rng.rand() < .2:
        items = [np.asfortranarray(b) for b in items]
    elif ctx.rng.rand() < .2:
        for i, b in enumerate(items):
            if b.ndim:
                big = np.zeros(tuple(2*s for s in b.shape), b.dtype)
                view = big[tuple(slice(None, None, 2) for _ in b.shape)]
                view[...] = b
                items[i] = view
    if len(items) == 1 and ctx.rng.rand() < .5:
        return items[0]
    return items if ctx.rng.rand() < .5 else tuple(items)


def scramble(data):
    for d in data if isinstance(data, (list, tuple)) else [data]:
        if d.flags.writeable:
            d[...] = 77


def random_key(ctx, n):
    k = ctx.integers(0, 7)
    r = ctx.rng
    if k == 0:
        return ctx.integers(-n, n-1)
    if k == 1:
        a, b = sorted(r.randint(-n-2, n+3, 2))
        return slice(int(a), int(b), int(ctx.pick((1, 2, 3))))
    if k == 2:
        return slice(None, None, -1)
    if k == 3:
        return r.rand(n) < .5
    if k == 4:
        return r.randint(-n, n, ctx.integers(1, 6))
    if k == 5:
        return [int(i) for i in r.randint(-n, n, ctx.integers(1, 6))]
    if k == 6:
        return np.int64(r.randint(-n, n))
    return slice(None, ctx.integers(1, n))


def key_name(key):
    return type(key).__name__


def indexing(ctx, fa, model, times):
    n = len(model)
    for _ in range(times):
        key = random_key(ctx, n)
        want = model.get(key)
        if len(want) == 0:
            continue
        got = fa[key]
        ctx.event(f'indexed by {key_name(key)}')
        compare(ctx, got, want, f'indexing by {key_name(key)}:', key=key)
        # the selection owns its data, in both directions
        if ctx.rng.rand() < .3:
            extra = model.get(slice(0, 1))
            got.append([a for a in extra.arrays()])
            out = got.export()
            for o in [out] if len(model.shapes) == 1 else out:
                o[...] = 55
            ctx.event('selections extended and overwritten')


def do_append(ctx, fa, model, els, n, single=False):
    batches = [e.batch(n) for e in els]
    data = payload(ctx, batches, single)
    fa.append(data)
    model.append(batches)
    scramble(data)


BAD = ('dtype', 'shape', 'ndim', 'count', 'type', 'item type', 'lengths',
       'other manifolds')


def bad_payload(ctx, els, kind, n, empty):
    """Invalid data; the faulty manifold is at a random position."""
    batches = [e.batch(n) for e in els]
    j = ctx.integers(0, len(els)-1)
    b = batches[j]
    if kind == 'dtype':
        if empty:
            return None
        if b.dtype == np.complex128:
            batches[j] = np.real(b).astype(float)
        elif b.dtype == np.float64:
            batches[j] = b.astype(ctx.pick((complex, np.float32, int)))
        else:
            batches[j] = b.astype(complex)
    elif kind == 'shape':
        if b.ndim == 1:
            return None
        batches[j] = np.concatenate([b, b], axis=ctx.integers(1, b.ndim-1))
    elif kind == 'ndim':
        batches[j] = b[None, None]
    elif kind == 'count':
        if ctx.rng.rand() < .5 and len(els) > 1:
            batches = batches[:-1]
        else:
            batches = batches+[b]
    elif kind == 'type':
        return ctx.pick((None, 3., 'abc', {'a': b}, {1, 2}))
    elif kind == 'item type':
        batches[j] = b.tolist()
    elif kind == 'lengths':
        if len(els) == 1:
            return None
        batches[j] = els[j].batch(n+ctx.integers(1, 3))
    elif kind == 'other manifolds':
        other = FA(*[e.shape+(2,) for e in els])
        other.append([np.zeros((n,)+e.shape+(2,), e.dtype) for e in els])
        return other
    return batches


def snapshot(fa):
    return (len(fa), fa.shape, fa.dtype, copy.deepcopy(fa.export())
            if len(fa) else None)


def reject(ctx, fa, model, els):
    kind = ctx.pick(BAD)
    n = ctx.pick((1, 2, 3, 1200) if kind != 'type' else (1,))
    data = bad_payload(ctx, els, kind, n, len(model) == 0)
    if data is None:
        return
    ctx.raises((TypeError, ValueError), lambda: fa.append(data),
               f'append with wrong {kind} is rejected', n=n,
               shapes=[e.shape for e in els])
    ctx.sig('rejected', kind, len(els), length_class(len(model)))
    compare(ctx, fa, model, f'rejected append ({kind}):')


def start(ctx, k=None, shape=None):
    k = k or ctx.pick((1, 1, 1, 2, 2, 2, 3, 3, 5, 8))
    els = [Element(ctx, shape) for _ in range(k)]
    return els, FA(*[e.shape for e in els]), Model([e.shape for e in els])


@C20.case(400)
def history(ctx):
    """Random histories, mostly short, checked after every step."""
    els, fa, model = start(ctx)
    compare(ctx, fa, model, 'construction')
    exported = []
    ops = []
    for step in range(ctx.integers(4, 14)):
        op = ctx.pick(('single', 'batch', 'batch', 'single', 'array', 'self',
                       'reject', 'reject', 'index', 'export', 'merge',
                       'copy'))
        ops.append(op)
        if op == 'single':
            do_append(ctx, fa, model, els, 1, single=True)
        elif op == 'batch':
            do_append(ctx, fa, model, els, ctx.pick((1, 2, 5, 17)))
        elif op == 'array':
            # same manifolds, another feature array
            other = FA(*[e.shape for e in els])
            m = Model(other._shape)
            do_append(ctx, other, m, els, ctx.pick((1, 2, 4)))
            fa.append(other)
            model.append(m.arrays())
            do_append(ctx, other, m, els, 2)      # does not reach fa
        elif op == 'self' and 0 < len(model) < 200:
            fa.append(fa)
            model.append(model.arrays())
        elif op == 'reject':
            reject(ctx, fa, model, els)
        elif op == 'index' and len(model):
            indexing(ctx, fa, model, 3)
        elif op == 'export' and len(model):
            out = fa.export()
            exported.append((out, copy.deepcopy(out)))
        elif op == 'merge' and len(model):
            key = random_key(ctx, len(model))
            sub = model.get(key)
            if len(sub):
                fa.append(fa[key])
                model.append(sub.arrays())
        elif op == 'copy' and len(model):
            twin = copy.deepcopy(fa)
            do_append(ctx, twin, copy.deepcopy(model), els, 3)
        compare(ctx, fa, model, f'{op}:', ops=ops)
    for out, was in exported:
        for o, w in zip(out if isinstance(out, list) else [out],
                        was if isinstance(was, list) else [was]):
            ctx.equal(o, w, 'exported data is not changed by later appends')
    ctx.sample(operations=ops, shapes=[e.shape for e in els],
               dtypes=[str(e.dtype) for e in els], length=len(model))


@C20.case(48)
def growth(ctx):
    """Crossing the preallocated sizes, in small and in large steps."""
    els, fa, model = start(ctx)
    target = ctx.pick((1000, 1001, 1999, 2000, 2001, 2500, 3100))
    first = ctx.pick((1, 2, 17, 999, 1000, 1001, 2300))
    do_append(ctx, fa, model, els, first, single=first == 1)
    grown = 0
    while len(model) < target:
        left = target-len(model)
        n = min(left, ctx.pick((1, 1, 3, 37, 500, 997, 1000, 1003)))
        if left > 40 and ctx.rng.rand() < .3:
            for _ in range(30):
                do_append(ctx, fa, model, els, 1, single=True)
            continue
        before = len(model)
        do_append(ctx, fa, model, els, n)
        grown += (before//1000) != (len(model)//1000)
        ctx.check(len(fa) == len(model), 'length while growing')
        if ctx.rng.rand() < .2:
            compare(ctx, fa, model, 'growth:', vector=False, first=first)
    compare(ctx, fa, model, 'growth:', first=first, target=target)
    ctx.event('preallocation sizes crossed', grown)
    indexing(ctx, fa, model, 4)
    reject(ctx, fa, model, els)
    n = len(model)
    for key in (n, n+1, -n-1, 4*n+5000, len(fa._array[0])
                if getattr(fa, '_array', None) is not None else n+7):
        if -n <= key < n:
            continue
        ctx.raises(IndexError, lambda: fa[key], 'index out of range', key=key)
    compare(ctx, fa, model, 'growth:')


@C20.case(80)
def indexing_all(ctx):
    els, fa, model = start(ctx)
    for _ in range(ctx.integers(1, 4)):
        do_append(ctx, fa, model, els, ctx.pick((1, 1, 2, 6)))
    n = len(model)
    for i in range(-n, n):
        compare(ctx, fa[i], model.get(i), 'indexing by int:')
    for i in (n, -n-1, n+3):
        ctx.raises(IndexError, lambda: fa[i], 'index out of range')
    elements = list(iter(fa))
    ctx.check(len(elements) == n, 'iteration visits every element once',
              got=len(elements), want=n)
    for i, e in enumerate(elements):
        compare(ctx, e, model.get(i), 'iteration:')
    indexing(ctx, fa, model, 25)
    compare(ctx, fa, model, 'many selections:')
    # chained selections
    key = random_key(ctx, n)
    sub = model.get(key)
    if len(sub):
        fb = fa[key]
        key2 = random_key(ctx, len(sub))
        if len(sub.get(key2)):
            compare(ctx, fb[key2], sub.get(key2), 'chained selection:')


@C20.case(40)
def short(ctx):
    """All slices and masks of short arrays, however they were filled."""
    els, fa, model = start(ctx, ctx.integers(1, 2))
    fill = ctx.pick(((1,), (1, 1), (2,), (1, 1, 1), (1, 2), (2, 1), (3,),
                     (1, 1, 1, 1), (2, 2)))
    for n in fill:
        do_append(ctx, fa, model, els, n, single=n == 1 and
                  bool(ctx.integers(0, 1)))
    n = len(model)
    bounds = [None]+list(range(-n-1, n+2))
    for a in bounds:
        for b in bounds:
            for c in (None, 1, -1, 2):
                key = slice(a, b, c)
                if len(model.get(key)):
                    compare(ctx, fa[key], model.get(key), 'slice:', key=key,
                            fill=fill)
    for bits in range(1, 2**n):
        key = np.array([bool(bits >> i & 1) for i in range(n)])
        compare(ctx, fa[key], model.get(key), 'mask:', key=key, fill=fill)
        compare(ctx, fa[list(key)], model.get(key), 'mask list:', key=key)
    compare(ctx, fa[...], model, 'ellipsis:')
    key = ctx.rng.randint(-n, n, (3,))
    compare(ctx, fa[(key,)], model.get(key), 'tuple:', key=key)


@C20.case(120)
def rejections(ctx):
    """Every kind of rejection in every state, then ordinary use goes on."""
    els, fa, model = start(ctx)
    n0 = ctx.cyc((0, 1, 3, 1000))
    if n0:
        do_append(ctx, fa, model, els, n0)
    for _ in range(6):
        reject(ctx, fa, model, els)
    if n0 == 0:
        # nothing of the rejected data remains, not even its dtype
        for e in els:
            e.dtype = np.dtype(ctx.pick(DTYPES))
    for n in (1, 2):
        do_append(ctx, fa, model, els, n, single=n == 1)
        compare(ctx, fa, model, 'append after a rejection:')
    reject(ctx, fa, model, els)
    ctx.raises(ValueError, lambda: FA((2, 2))[0], 'indexing an empty array')
    ctx.raises(ValueError, lambda: FA((2, 2)).vectorize(),
               'vectorising an empty array')


@C20.case(100)
def vectorisation(ctx):
    """The symmetry of the whole collection decides, not that of one."""
    p = ctx.integers(1, 5)
    els, fa, model = start(ctx, ctx.integers(1, 2), (p, p))
    for e in els:
        e.kind = ctx.pick(('sym', 'skew', 'late', 'mixed', 'nearly', 'any',
                           'almost', 'transpose'))
    for _ in range(ctx.integers(1, 6)):
        do_append(ctx, fa, model, els, ctx.pick((1, 2, 3)))
        compare(ctx, fa, model, 'vectorisation:', p=p,
                kinds=[e.kind for e in els])
    ctx.sig('vectorize', p, [e.kind for e in els], [str(e.dtype) for e in els],
            fa.vectorize().shape[1])


# ---------------------------------------------------------------------------
C21 = Prop('C21', 'distinct (estimator, jobs, backend, shape, dtype, observed '
           'concurrency) situations compared with independent fits',
           assumptions=['the reference for one trial is a deep copy of the '
                        'given estimator fitted on that trial alone in the '
                        'main thread',
                        'numbers are compared to 1e-9 relative (parallel '
                        'workers may use other BLAS kernels)'], scale=2)


class Spy(base.RealEmpiricalCovariance):
    """An estimator whose fit is slow and not re-entrant: what it returns is
    wrong as soon as two fits share the object, in time or in sequence."""
    trace = []
    lock = threading.Lock()
    running = 0

    def __init__(self, gain=2., delays=()):
        super().__init__()
        self.gain = gain
        self.delays = delays
        self.fits = 0
        self.memory = 0.

    def fit(self, X, y=None, init=None, shift=0.):
        with Spy.lock:
            Spy.running += 1
            Spy.trace.append((threading.get_ident(), id(self), Spy.running))
        self.fits += 1
        self.partial = self.gain*(X.T@X)/len(X)
        d = self.delays
        time.sleep(d[int(abs(X[0, 0])*1e6) % len(d)] if len(d) else 0)
        self.partial = self.partial+shift+self.memory
        self.memory = float(np.abs(X).max())
        time.sleep(d[int(abs(X[-1, -1])*1e6) % len(d)] if len(d) else 0)
        if init is not None:
            self.partial = self.partial+init
        self.covariance_ = self.partial+0.
        with Spy.lock:
            Spy.running -= 1
        return self

    def transform(self, X):
        return self.covariance_


class Meet(Spy):
    """Every fit waits for the fits of the other workers to be in progress."""
    barrier = None

    def fit(self, X, y=None, **kw):
        Meet.barrier.wait()
        return super().fit(X, y, **kw)


class SpyFeatures(Spy):
    """Returns several features per trial, one of them scalar."""

    def transform(self, X):
        time.sleep(self.delays[0] if len(self.delays) else 0)
        return [self.covariance_, np.array([self.memory, float(self.fits)])]


class Scalar(BaseEstimator, TransformerMixin):
    def __init__(self, cplx=False):
        self.cplx = cplx

    def fit(self, X, y=None):
        self.v = np.sum(X[0])*(1j if self.cplx else 1.)
        return self

    def transform(self, X):
        return np.complex128(self.v) if self.cplx else np.float64(self.v)


def estimators(ctx, cplx, others=True):
    out = [EMPIRICAL[cplx](assume_centered=bool(ctx.integers(0, 1))),
           TYLER[cplx](normalisation=ctx.pick(('None', 'trace',
                                               'determinant')),
                       iter_max=ctx.pick((3, 100))),
           STUDENT[cplx](df=ctx.pick((1., 3., 15.))),
           HUBER[cplx](q=ctx.pick((.5, .9)), tol=ctx.pick((1e-2, 1e-8)))]
    if others and not cplx:
        out += [LedoitWolf()]
    return ctx.pick(out)


def trials(ctx, cplx, k=None, dtype=None, few=True):
    k = k or ctx.integers(1, 9)
    p = ctx.integers(1, 5)
    n = ctx.integers(*ctx.pick(((2*p+3, 30), (2*p+3, 30),
                                (p+2, 2*p+2) if few else (2*p+3, 30),
                                (100, 300))))
    X = np.array([gen.samples(ctx.rng, n, p, cplx, ctx.pick(gen.LAWS[:4])) *
                  10.**ctx.rng.uniform(-2, 2) for _ in range(k)])
    return X if dtype is None else X.astype(dtype)


def alone(estimator, x, **kw):
    return copy.deepcopy(estimator).fit(x, **kw).covariance_


def batch_check(ctx, X, estimator, n_jobs, backend, tol=1e-9, **kw):
    want = [alone(estimator, x, **kw) for x in X]
    state = copy.deepcopy(estimator.__dict__)
    F = frozen(X)
    t = base.CovariancesEstimation(estimator, n_jobs=n_jobs)
    ctx.check(t.fit(F) is t, 'fit returns the transformer')

    def run():
        if backend is None:
            return t.transform(F, **kw)
        with joblib.parallel_backend(backend, **(
                {'inner_max_num_threads': 1} if backend == 'loky' else {})):
            return t.transform(F, **kw)
    got = run()
    ctx.check(got.shape == (len(X), X.shape[2], X.shape[2]), 'stack shape',
              got=got.shape)
    ctx.check(got.dtype.itemsize >= X.dtype.itemsize or
              X.dtype.kind in 'iub', 'precision is that of the data')
    for i, w in enumerate(want):
        ctx.close(got[i], w.astype(got.dtype), tol,
                  'each trial gets its own independent fit', trial=i,
                  n_jobs=n_jobs, backend=backend,
                  estimator=type(estimator).__name__)
    ctx.event('trials compared', len(X))
    ctx.equal(F, X, 'the trials are not modified')
    for a, v in state.items():
        if isinstance(v, np.ndarray):
            ctx.equal(getattr(estimator, a), v,
                      'the given estimator is left alone')
    ctx.check(set(estimator.__dict__) == set(state),
              'the given estimator is left alone (attributes)',
              got=sorted(set(estimator.__dict__) ^ set(state)))
    ctx.sig(type(estimator).__name__, n_jobs, backend, X.shape,
            str(X.dtype))
    return got


@C21.case(64)
def sequential(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    X = trials(ctx, cplx)
    est = estimators(ctx, cplx)
    if ctx.rng.rand() < .5:     # whatever the estimator was used for before
        est.fit(trials(ctx, cplx, 1)[0])
    got = batch_check(ctx, X, est, 1, None)
    perm = ctx.rng.permutation(len(X))
    t = base.CovariancesEstimation(est)
    ctx.close(t.fit_transform(X[perm]), got[perm], 1e-12,
              'permuting the trials permutes the estimates')
    ctx.close(clone(t).transform(X), got, 1e-12, 'a clone agrees')


@C21.case(36, 120)
def many_trials(ctx):
    """More trials than workers, batches or cores."""
    features_, n_jobs, cplx = ctx.cyc((False, True), (1, 2, 4, None, -1),
                                      (False, True))
    k = ctx.pick((33, 40, 64, 65, 100, 129, 257, 300))
    p = ctx.integers(1, 3)
    X = gen.randn(ctx.rng, (k, p+ctx.integers(2, 6), p), cplx)
    X = X*10.**ctx.rng.uniform(-2, 2, (k, 1, 1))
    est = ctx.pick((EMPIRICAL[cplx](), EMPIRICAL[cplx](assume_centered=True),
                    STUDENT[cplx](df=3., iter_max=3)))
    with joblib.parallel_backend('threading'):
        if features_:
            features_check(ctx, X, est, n_jobs)
        else:
            batch_check(ctx, X, est, n_jobs, None)


@C21.case(6, 24)
def thousands(ctx):
    """No trial is lost, repeated or misplaced among thousands."""
    what, n_jobs = ctx.cyc(('features', 'covariances', 'scalars'), (1, 3))
    k = ctx.integers(1001, 4200)
    X = gen.randn(ctx.rng, (k, 3, 2), False)
    with joblib.parallel_backend('threading'):
        if what == 'covariances':
            batch_check(ctx, X, EMPIRICAL[False](), n_jobs, None)
        else:
            features_check(ctx, X, Scalar() if what == 'scalars' else
                           EMPIRICAL[False](), n_jobs)


@C21.case(96)
def threads(ctx):
    """Thread pools of several sizes, over all the real estimators."""
    cplx = bool(ctx.cyc((0, 1)))
    X = trials(ctx, cplx, ctx.integers(2, 9))
    est = estimators(ctx, cplx)
    with fine_grained(ctx):
        batch_check(ctx, X, est, ctx.pick((2, 3, 4, 8, -1, -2)), 'threading')


@C21.case(8, 60, timeout=240)
def processes(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    X = trials(ctx, cplx, ctx.integers(2, 6))
    est = estimators(ctx, cplx, False)
    backend = ctx.pick(('loky', 'multiprocessing', None))
    batch_check(ctx, X, est, 2, backend)
    if backend:
        with joblib.parallel_backend(backend):
            features_check(ctx, X, est, 2)
    from joblib.externals.loky import get_reusable_executor
    get_reusable_executor().shutdown(wait=True)


@contextlib.contextmanager
def fine_grained(ctx):
    """Varies the rate at which the interpreter switches between threads."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick((1e-6, 1e-5, 1e-4, 5e-3)))
    try:
        yield
    finally:
        sys.setswitchinterval(old)


def spy_run(ctx, transformer, X, workers, make, **kw):
    Spy.trace = []
    Spy.running = 0
    if workers == 1:
        out = transformer(make, 1).transform(X, **kw)
    else:
        with joblib.parallel_backend('threading'), fine_grained(ctx):
            out = transformer(make, workers).transform(X, **kw)
    trace = list(Spy.trace)
    overlap = max([t[2] for t in trace] or [0])
    ctx.event('fits observed', len(trace))
    ctx.event('fits overlapping another one',
              sum(t[2] > 1 for t in trace))
    ctx.event('threads observed', len({t[0] for t in trace}))
    return out, overlap, len({t[0] for t in trace})


@C21.case(80)
def interleavings(ctx):
    """Fits with injected delays, so that they overlap and finish in another
    order than they started; parameters of the fit are forwarded."""
    k = ctx.integers(2, 10)
    X = trials(ctx, False, k)
    workers = ctx.pick((1, 2, 3, 4, 8))
    delays = tuple(ctx.rng.exponential(.006, 7).round(5))
    spy = Spy(ctx.pick((1., 2.)), delays)
    kw = ctx.pick(({}, {'shift': 3.}, {'init': np.eye(X.shape[2])},
                   {'shift': -1., 'init': np.ones(X.shape[2])}))
    want = [alone(Spy(spy.gain), x, **kw) for x in X]
    got, overlap, threads_ = spy_run(
        ctx, lambda e, w: base.CovariancesEstimation(e, n_jobs=w), frozen(X),
        workers, spy, **kw)
    ctx.check(overlap <= workers and threads_ <= workers+1, 'no more fits at '
              'a time than jobs', overlap=overlap, workers=workers)
    for i, w in enumerate(want):
        ctx.close(got[i], w, 1e-9, 'trials do not influence each other',
                  trial=i, workers=workers, overlap=overlap, kwargs=list(kw))
    ctx.sig('covariances', workers, k, overlap, threads_, sorted(kw))
    ctx.sample(workers=workers, trials=k, overlap=overlap, threads=threads_)


@C21.case(8, 24, timeout=400)
def jobs_run_together(ctx):
    """As many trials as jobs, whose fits wait for each other."""
    what, jobs = ctx.cyc((base.CovariancesEstimation,
                          base.FeaturesEstimation), (2, 3, 4))
    X = trials(ctx, False, jobs)
    want = [alone(Spy(2.), x) for x in X]
    Meet.barrier = threading.Barrier(jobs, timeout=60)
    spy = Meet(2.)
    try:
        got, overlap, _ = spy_run(ctx, lambda e, w: what(e, n_jobs=w),
                                  frozen(X), jobs, spy)
    except threading.BrokenBarrierError:
        got = None
    ctx.check(got is not None, 'the jobs asked for do not run together',
              jobs=jobs, what=what.__name__)
    if what is base.FeaturesEstimation:
        got = got.export()
    for g, w in zip(got, want):
        ctx.close(g, w, 1e-9, 'trials do not influence each other')
    ctx.sig('together', what.__name__, jobs, overlap)


def features_check(ctx, X, est, n_jobs):
    F = frozen(X)
    got = base.FeaturesEstimation(est, n_jobs=n_jobs).fit(F).transform(F)
    want = [copy.deepcopy(est).fit_transform(x) for x in X]
    want = [w if isinstance(w, list) else [np.atleast_1d(w)] for w in want]
    ctx.check(len(got) == len(X), 'one feature per trial', got=len(got))
    for i, w in enumerate(want):
        out = got[i].export()
        out = [out] if len(w) == 1 else out
        for o, a in zip(out, w):
            ctx.close(o, a, 1e-9, 'features of each trial are its own',
                      trial=i, n_jobs=n_jobs, estimator=type(est).__name__)
            ctx.check(o.dtype == a.dtype, 'dtype of the features')
    ctx.equal(F, X, 'the trials are not modified')
    ctx.event('trials compared', len(X))
    ctx.sig('features', type(est).__name__, n_jobs, X.shape, str(X.dtype))


@C21.case(64)
def features(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    X = trials(ctx, cplx)
    est = ctx.pick((estimators(ctx, cplx, False), estimators(ctx, cplx, False),
                    Scalar(cplx)))
    n_jobs = ctx.pick((1, 1, 2, 4))
    with joblib.parallel_backend('threading'):
        features_check(ctx, X, est, n_jobs)


@C21.case(60)
def feature_interleavings(ctx):
    k = ctx.integers(2, 9)
    X = trials(ctx, False, k)
    workers = ctx.pick((1, 2, 3, 8))
    delays = tuple(ctx.rng.exponential(.006, 5).round(5))
    cls = ctx.pick((Spy, SpyFeatures))
    want = [copy.deepcopy(cls(2.)).fit(x).transform(x) for x in X]
    got, overlap, threads_ = spy_run(
        ctx, lambda e, w: base.FeaturesEstimation(e, n_jobs=w), frozen(X),
        workers, cls(2., delays))
    ctx.check(overlap <= workers, 'no more fits at a time than jobs',
              overlap=overlap, workers=workers)
    ctx.check(len(got) == k, 'one feature per trial')
    for i, w in enumerate(want):
        out = got[i].export()
        for o, a in zip([out] if cls is Spy else out,
                        [w] if cls is Spy else w):
            ctx.close(o, a, 1e-9, 'trials do not influence each other',
                      trial=i, workers=workers, overlap=overlap)
    ctx.sig('features', cls.__name__, workers, k, overlap, threads_)


@C21.case(24)
def concurrent_transforms(ctx):
    """Several threads use transformers sharing one estimator."""
    cplx = bool(ctx.cyc((0, 1)))
    stacks = [trials(ctx, cplx) for _ in range(4)]
    est = estimators(ctx, cplx)
    want = [np.array([alone(est, x) for x in X]) for X in stacks]
    out = [None]*4
    gate = threading.Barrier(4)
    shared = base.CovariancesEstimation(est, n_jobs=ctx.pick((1, 2)))

    def work(i):
        gate.wait()
        with joblib.parallel_backend('threading'):
            out[i] = shared.transform(stacks[i])
    ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for i in range(4):
        ctx.check(out[i] is not None, 'concurrent transforms complete')
        ctx.close(out[i], want[i], 1e-9,
                  'concurrent transforms do not influence each other')
    ctx.event('concurrent transforms', 4)
    ctx.sig('concurrent', type(est).__name__, shared.n_jobs, cplx,
            [X.shape for X in stacks])


@C21.case(24)
def random_state(ctx):
    """An estimator that carries its own generator draws the same numbers for
    every trial, whatever the number of jobs."""
    X = trials(ctx, False, ctx.integers(2, 4))
    X = np.concatenate([X, X], axis=1)+1e-3*ctx.rng.standard_normal(
        (len(X), 2*X.shape[1], X.shape[2]))
    est = MinCovDet(random_state=np.random.RandomState(ctx.integers(0, 99)),
                    support_fraction=.7)
    want = [alone(est, x) for x in X]
    for n_jobs in (1, 2):
        with joblib.parallel_backend('threading'):
            got = base.CovariancesEstimation(
                copy.deepcopy(est), n_jobs=n_jobs).transform(X)
        for i, w in enumerate(want):
            ctx.close(got[i], w, 1e-9, 'random draws are not shared between '
                      'trials', n_jobs=n_jobs, trial=i)
    ctx.sig('random state', X.shape)


@C21.case(48)
def types(ctx):
    """Integer, single precision and non contiguous stacks."""
    kind = ctx.cyc(('int64', 'int16', 'float32', 'complex64', 'view', 'F'))
    cplx = kind == 'complex64' or (kind in ('view', 'F') and
                                   bool(ctx.integers(0, 1)))
    X = trials(ctx, cplx, few=False)
    if kind.startswith('int'):
        X = (ctx.rng.randint(1, 30, X.shape)*ctx.rng.choice(
            [-1, 1], X.shape)).astype(kind)
    elif kind == 'view':
        big = np.zeros((2*len(X), X.shape[1]+2, 3*X.shape[2]), X.dtype)
        big[::2, 1:-1, ::3] = X
        X = big[::2, 1:-1, ::3]
    elif kind == 'F':
        X = np.asfortranarray(X)
    else:
        X = X.astype(kind)
    est = EMPIRICAL[cplx]() if kind in ('float32', 'complex64') else \
        estimators(ctx, cplx)
    n_jobs = ctx.pick((1, 2))
    tol = 1e-9 if X.dtype.itemsize >= 8 and kind != 'complex64' else 1e-5
    got = batch_check(ctx, X, est, n_jobs,
                      None if n_jobs == 1 else 'threading', tol)
    if kind.startswith('int'):
        ctx.close(got, np.array([alone(est, x.astype(float)) for x in X]),
                  1e-9, 'integer data is not truncated')


PROPS = {'C20': C20, 'C21': C21}
