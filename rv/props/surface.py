"""C27: the scikit-learn surface; C28: rejection of invalid input."""
import copy
import pickle

import numpy as np
from sklearn.base import clone
from sklearn.covariance import EmpiricalCovariance
from sklearn.exceptions import NotFittedError

from .. import gen
from ..core import Prop
from ..lib import base, checking, cov, manifolds, online, structured, \
    EMPIRICAL, TYLER, STUDENT, HUBER, STUDENT_FP, frozen
from .models import ref_t

C27 = Prop('C27', 'distinct (estimator, options, size, test set, norm) whose '
           'results were recomputed from the fitted covariance', scale=4,
           assumptions=['Huber and Kronecker MM estimators document their '
                        'score as not implemented',
                        'Student models score the total, not the mean, '
                        'log-likelihood of their own model'])

KINDS = ('empirical', 'tyler', 'student', 'huber', 'kron mm', 'kron student',
         'online')


class Fitted:
    """A fitted estimator with its data; kwargs drawn at random."""

    def __init__(self, ctx, kind, cplx, n=None, p=None):
        self.kind = kind
        self.cplx = cplx = cplx or kind in ('kron mm', 'kron student',
                                            'online')
        c = ctx
        if kind.startswith('kron'):
            a, b = c.integers(1, 3), c.integers(1, 3)
            p = a*b
        size = None if n or p else c.integers(0, 29)
        self.p = p = p or (c.integers(8, 40) if size == 3 else
                           c.integers(1, 5))
        n = n or (c.integers(2000, 9000) if size == 7 and kind != 'online'
                  else c.integers(3*p+3, 3*p+30))
        self.shift = c.pick((0., 3.))
        self.X = gen.samples(c.rng, n, p, cplx, c.pick(gen.LAWS[:4])) + \
            self.shift*(1+1j if cplx else 1)
        self.data = 'plain'
        if kind not in ('kron mm', 'kron student', 'online'):
            self.data = c.pick(('plain', 'plain', 'units', 'grid', 'tiny'))
            if self.data == 'units':    # variables in different units
                self.X = self.X*10.**c.rng.permutation(
                    np.linspace(0, c.pick((-3, 3)), p))
            elif self.data == 'tiny':
                self.X = self.X*10.**c.integers(-9, 9)
            elif self.data == 'grid' and kind == 'empirical':
                # small integers, zeros and repeated samples included
                self.X = np.round(self.X)
        self.centred = True
        self.store = True
        if kind in ('empirical', 'kron student'):
            self.centred = bool(c.integers(0, 1))
        if kind == 'empirical':
            self.store = bool(c.integers(0, 1))
            self.est = EMPIRICAL[cplx](assume_centered=self.centred,
                                       store_precision=self.store)
        elif kind == 'tyler':
            self.est = TYLER[cplx](normalisation=c.pick((
                'None', 'trace', 'determinant', 'element')), method=c.pick(
                    ('fixed-point', 'fixed-point', 'natural gradient')))
        elif kind == 'student':
            self.df = c.pick((1., 2.5, 12.))
            self.est = STUDENT[cplx](df=self.df)
        elif kind == 'huber':
            self.est = HUBER[cplx](q=c.pick((.4, .9)))
        elif kind == 'kron mm':
            self.store = bool(c.integers(0, 1))
            self.est = structured.KroneckerEllipticalMM(
                a, b, store_precision=self.store)
        elif kind == 'kron student':
            self.df = c.pick((2., 5.))
            self.est = structured.KroneckerStudent(
                a, b, self.df, assume_centered=self.centred)
        else:
            self.est = online.StochasticGradientCovarianceEstimator(
                manifolds.HermitianPositiveDefinite(p),
                lambda x, t: x.T@x.conj()/(1+np.sum(np.abs(x)**2))-.5*t, .3)
        kw = {'init': np.eye(p, dtype=complex)} if kind == 'online' else {}
        back = self.est.fit(frozen(self.X), **kw)
        ctx.check(back is self.est, 'fit returns the estimator')


def fitted(ctx, kinds=KINDS):
    kind, cplx = ctx.cyc(kinds, (False, True))
    return Fitted(ctx, kind, cplx)


def test_set(ctx, f):
    n = ctx.pick((1, 2, 9)*8+(700, 5000))
    X = gen.samples(ctx.rng, n, f.p, f.cplx)*10.**ctx.rng.uniform(-2, 2)
    return X+ctx.pick((0., f.shift))


def given(ctx, D):
    """The test set as an array of any layout, or as nested lists."""
    how = ctx.integers(0, 5)
    if how == 0 and D.size < 1000:
        return D.tolist()
    return np.asfortranarray(D) if how == 1 else \
        np.repeat(D, 2, axis=0)[::2] if how == 2 else frozen(D)


def ref_precision(C):
    return np.linalg.inv(gen.herm_part(C))


@C27.case(140)
def attributes(ctx):
    f = fitted(ctx)
    e, p = f.est, f.p
    C = e.covariance_
    ctx.check(C.shape == (p, p), 'shape of the covariance')
    ctx.check(np.iscomplexobj(C) == f.cplx, 'field of the covariance')
    P = e.get_precision()
    cond = np.linalg.cond(C)
    ctx.small(np.linalg.norm(C-C.conj().T)/np.linalg.norm(C),
              1e-10+1e-15*cond, 'Hermitian')
    ctx.small(np.linalg.norm(P@C-np.eye(p)), 1e-9*cond, 'precision is the '
              'inverse of the covariance', kind=f.kind)
    if f.store:
        ctx.small(np.linalg.norm(e.precision_@C-np.eye(p)), 1e-9*cond,
                  'stored precision is the inverse of the covariance')
    else:
        ctx.check(e.precision_ is None, 'precision is not stored')
    m = np.zeros(p) if f.centred else f.X.mean(0)
    ctx.check(np.shape(e.location_) == (p,), 'shape of the location')
    ctx.small(np.abs(e.location_-m), 1e-10*(1+np.abs(m).max()),
              'location: mean if centring is requested, else zero',
              kind=f.kind, centred=f.centred)
    if f.kind == 'empirical':
        Y = f.X-m
        S = Y.T@Y.conj()/len(Y)
        ctx.close(C, S, 1e-9, 'empirical covariance about the location')
    if hasattr(e, 'transform'):
        ctx.equal(e.transform(f.X), C, 'transform gives the covariance')
    ctx.sig('attributes', f.kind, f.cplx, p, f.centred, f.store, f.shift)
    ctx.sample(estimator=type(e).__name__, p=p, centred=f.centred)


@C27.case(140)
def distances(ctx):
    f = fitted(ctx)
    X = test_set(ctx, f)
    for D in (X, f.X):
        want = gen.quad(D-f.est.location_, f.est.covariance_)
        got = f.est.mahalanobis(given(ctx, D))
        ctx.check(got.shape == (len(D),) and np.isrealobj(got),
                  'one real distance per sample')
        ctx.close(got, want, 1e-8*np.linalg.cond(f.est.covariance_),
                  'mahalanobis is (x-m)^H S^-1 (x-m)', kind=f.kind)
    ctx.check(np.all(got >= 0), 'distances are not negative')
    ctx.event('distances compared', len(X)+len(f.X))
    ctx.sig('mahalanobis', f.kind, f.cplx, f.p, f.centred, len(X))


@C27.case(140)
def norms(ctx):
    f = fitted(ctx)
    C = f.est.covariance_
    other = ctx.pick(('spd', 'same', 'tiny', 'skew', 'zero'))
    H = {'spd': lambda: gen.spd(ctx.rng, f.p, f.cplx),
         'same': lambda: C.copy(),
         'tiny': lambda: C+1e-7*gen.herm(ctx.rng, f.p, f.cplx),
         'skew': lambda: C+(1j*gen.herm(ctx.rng, f.p, True) if f.cplx
                            else gen.herm(ctx.rng, f.p, False)),
         'zero': lambda: np.zeros_like(C)}[other]()
    norm, scaling, squared = ctx.pick(('frobenius', 'spectral')), \
        bool(ctx.integers(0, 1)), bool(ctx.integers(0, 1))
    E = H-C
    want = np.linalg.norm(E, 'fro' if norm == 'frobenius' else 2)**2
    if scaling:
        want = want/f.p
    if not squared:
        want = np.sqrt(want)
    got = f.est.error_norm(frozen(H), norm=norm, scaling=scaling,
                           squared=squared)
    ctx.check(np.isrealobj(got), 'a norm is real')
    ctx.small(got-want, 1e-9*want, f'{norm} norm of the difference',
              other=other, scaling=scaling, squared=squared)
    if other == 'spd':
        d = f.est.error_norm(H)
        ctx.small(d-np.linalg.norm(E)**2/f.p, 1e-9*d, 'default norm')
    ctx.raises(NotImplementedError, lambda: f.est.error_norm(H, norm='x'),
               'unknown norm')
    ctx.sig('norm', f.kind, f.cplx, norm, scaling, squared, other)


@C27.case(140)
def scores(ctx):
    f = fitted(ctx, ('empirical', 'tyler', 'student', 'kron student',
                     'online'))
    X = test_set(ctx, f)
    e = f.est
    C, m, p = e.covariance_, e.location_, f.p
    ld = np.linalg.slogdet(C)[1]
    for D in (X, f.X):
        q = gen.quad(D-m, C)
        got = e.score(given(ctx, D))
        if f.kind in ('student', 'kron student'):
            if f.cplx:
                want = np.sum(ref_t(D, m, C, f.df))
            else:
                from scipy.special import gammaln
                df = f.df
                want = np.sum(gammaln((df+p)/2)-gammaln(df/2)
                              - p/2*np.log(df*np.pi)-ld/2
                              - (df+p)/2*np.log1p(q/df))
        elif f.cplx:
            want = np.mean(-q-ld-p*np.log(np.pi))
        else:
            want = np.mean(-q/2-ld/2-p/2*np.log(2*np.pi))
        ctx.check(np.ndim(got) == 0 and np.isrealobj(got), 'a real number')
        size = abs(want)+p*abs(ld)+np.mean(q)+10
        ctx.small(got-want, 1e-8*size*(1+np.linalg.cond(C)*1e-4),
                  'score is the log-likelihood', kind=f.kind, want=want)
    ctx.sig('score', f.kind, f.cplx, p, f.centred, len(X))


@C27.case(80)
def like_sklearn(ctx):
    """The real estimators inherit from scikit-learn and agree with it."""
    p = ctx.integers(1, 5)
    X = gen.samples(ctx.rng, ctx.integers(2, 40), p, False,
                    ctx.pick(gen.LAWS))+ctx.pick((0., 5.))
    kw = {'assume_centered': bool(ctx.integers(0, 1)),
          'store_precision': bool(ctx.integers(0, 1))}
    a, b = base.RealEmpiricalCovariance(**kw).fit(X), \
        EmpiricalCovariance(**kw).fit(X)
    ctx.close(a.covariance_, b.covariance_, 1e-10, 'covariance')
    ctx.close(a.location_, b.location_, 1e-10, 'location')
    ctx.close(a.get_precision(), b.get_precision(), 1e-6, 'precision')
    T = gen.samples(ctx.rng, 6, p, False)
    H = gen.spd(ctx.rng, p, False)
    if np.linalg.cond(b.covariance_) < 1e6:
        ctx.close(a.mahalanobis(T), b.mahalanobis(T), 1e-8, 'mahalanobis')
        ctx.close(a.score(T), b.score(T), 1e-8, 'score')
    for norm in ('frobenius', 'spectral'):
        ctx.close(a.error_norm(H, norm=norm), b.error_norm(H, norm=norm),
                  1e-9, 'error norm')
    ctx.equal(base.RealEmpiricalCovariance(**kw).fit_transform(X),
              a.covariance_, 'fit_transform')
    ctx.check(a.get_params() == b.get_params() and clone(a).get_params() ==
              a.get_params(), 'parameters')
    ctx.sig('sklearn', p, len(X), kw)


@C27.case(80)
def complex_empirical(ctx):
    p = ctx.integers(1, 5)
    n = ctx.pick((1, 2, 3, 20))
    X = gen.samples(ctx.rng, n, p, True, ctx.pick(gen.LAWS)) + \
        ctx.pick((0, 4-3j))
    centred = bool(ctx.integers(0, 1))
    f = base.complex_empirical_covariance
    S = f(frozen(X), assume_centered=centred)
    Y = X if centred else X-X.mean(0)
    want = sum(np.outer(y, y.conj()) for y in Y)/n
    scale = np.abs(X).max()**2
    ctx.check(S.shape == (p, p), 'shape', got=S.shape)
    ctx.small(np.abs(S-want)/scale, 1e-12, '(1/n) sum x x^H',
              centred=centred, n=n)
    ctx.small(np.abs(f(X)-sum(np.outer(y, y.conj()) for y in X-X.mean(0))/n)
              / scale, 1e-12, 'centred by default')
    if n == 1:
        ctx.small(np.abs(f(X[0], assume_centered=True)-np.outer(
            X[0], X[0].conj()))/scale, 1e-12, 'a single sample')
    R = X.real
    got = f(R, assume_centered=centred)
    want = sum(np.outer(y, y) for y in (R if centred else R-R.mean(0)))/n
    ctx.small(np.abs(got-want)/scale, 1e-12, 'real data as complex')
    # equivalent circular real problem
    if centred:
        e = base.ComplexEmpiricalCovariance(assume_centered=True).fit(X)
        ctx.small(np.abs(e.covariance_-S)/scale, 1e-12,
                  'function and estimator agree')
    ctx.sig('complex empirical', p, n, centred)


class CovScale(base.RealCovarianceScale):
    def fit(self, X, y=None):
        X = self._validate_data(X)
        self.location_ = np.zeros(X.shape[1])
        self._set_covariance(X.T@X/len(X))
        self._set_scale(np.abs(X).sum(1, keepdims=True))
        return self


@C27.case(24)
def covariance_and_scale(ctx):
    p = ctx.integers(1, 4)
    X = gen.samples(ctx.rng, ctx.integers(p+2, 20), p, False)
    e = CovScale(store_precision=bool(ctx.integers(0, 1))).fit(X)
    C, s = e.transform(X)
    ctx.close(C, X.T@X/len(X), 1e-12, 'covariance')
    ctx.close(s, np.abs(X).sum(1, keepdims=True), 1e-14, 'scale')
    ctx.equal(e.get_scale(), s, 'get_scale')
    stack = np.array([X, 2*X, X[::-1]])
    out = base.FeaturesEstimation(e).fit_transform(stack)
    for i in range(3):
        a, b = out[i].export()
        w = CovScale().fit(stack[i]).transform(stack[i])
        ctx.close(a, w[0], 1e-12, 'features of a trial')
        ctx.close(b, w[1], 1e-12, 'features of a trial')
    ctx.raises(NotImplementedError, lambda: base.RealCovarianceScale().fit(X),
               'the base class does not fit')
    ctx.raises(ValueError, lambda: e._set_scale(np.array([[np.nan]])),
               'scales are validated')
    ctx.sig('scale', p, e.store_precision)


@C27.case(80)
def array_likes(ctx):
    """Any array-like: nested lists, integers, single precision, layouts."""
    kind, cplx, form = ctx.cyc(('empirical', 'tyler', 'student', 'huber'),
                               (False, True), ('list', 'int', 'single', 'F',
                                               'view', 'narrow'))
    p = ctx.integers(1, 4)
    n = 6*p+9 if form != 'narrow' else ctx.integers(6*p+9, 400)
    X = gen.samples(ctx.rng, n, p, cplx)
    Z, tol = X, 1e-9
    if form == 'list':
        Z = X.tolist()
    elif form == 'int' and not cplx:
        X = np.round(10*X)+np.where(np.abs(X) < .05, 1, 0)
        Z = X.astype(int)
    elif form == 'narrow' and not cplx:
        # products of such integers do not fit their type
        dtype = np.dtype(ctx.pick(('int8', 'uint8', 'int16', 'uint16',
                                   'int32', 'uint32', 'int64')))
        top = min(np.iinfo(dtype).max, 2**40)
        X = np.round(X/np.abs(X).max()*top)
        X = X + (np.abs(X).sum(1) == 0)[:, None]
        Z = (np.abs(X) if dtype.kind == 'u' else X).astype(dtype)
        X = Z.astype(float)
    elif form == 'single':
        Z = X.astype(np.complex64 if cplx else np.float32)
        X, tol = Z.astype(complex if cplx else float), 1e-3
    elif form == 'F':
        Z = np.asfortranarray(X)
    elif form == 'view':
        Z = np.repeat(X, 2, axis=1)[:, ::2]
    centred = ctx.pick((False, True))
    make = {'empirical': lambda: EMPIRICAL[cplx](assume_centered=centred),
            'tyler': lambda: TYLER[cplx](tol=1e-6, iter_max=60),
            'student': lambda: STUDENT[cplx](df=4., tol=1e-6),
            'huber': lambda: HUBER[cplx](q=.8, tol=1e-6)}[kind]
    a, b = make().fit(Z), make().fit(X)
    ctx.close(a.covariance_, b.covariance_, tol, 'same result for any '
              'array-like', form=form, kind=kind, cplx=cplx)
    ctx.close(a.mahalanobis(Z), b.mahalanobis(X), 100*tol,
              'same distances for any array-like')
    ctx.close(a.location_, b.location_, tol, 'same location')
    if kind in ('empirical', 'student'):
        ctx.close(a.score(Z), b.score(X), 100*tol, 'same score')
    ctx.check(a.n_features_in_ == b.n_features_in_, 'number of features')
    ctx.sig('array-like', kind, cplx, form, p)


# ---------------------------------------------------------------------------
C28 = Prop('C28', 'distinct (estimator, state, kind and position of the '
           'invalid input) rejections observed, with the state before and '
           'after', scale=4,
           assumptions=['a failed fit of the online estimator stops at the '
                        'sample that failed: its estimate is then that of '
                        'the samples before',
                        'n_features_in_ is the number of features last seen '
                        'in valid data (scikit-learn convention)'])

ATTRS = ('covariance_', 'precision_', 'location_', 'err_', 'iteration_',
         'A_', 'B_', 'estimate_')


def state(est):
    return {k: copy.deepcopy(est.__dict__[k]) for k in ATTRS
            if k in est.__dict__}


def unchanged(ctx, est, before, what, **kw):
    after = state(est)
    ctx.check(set(after) == set(before), f'fitted attributes after {what}',
              before=sorted(before), after=sorted(after), **kw)
    for k, v in before.items():
        if v is None or after[k] is None:
            ctx.check(v is None and after[k] is None, f'{k} after {what}',
                      **kw)
        else:
            ctx.equal(after[k], v, f'{k} after {what}', **kw)
    ctx.event('states compared after a failure')


BAD = ('nan', 'inf', '-inf', 'vector', 'stack', 'no samples', 'no features',
       'text', 'none', 'scalar', 'ragged')


def spoil(ctx, X, kind):
    X = np.array(X)
    n, p = X.shape
    i, j = ctx.pick((0, n-1, n//2)), ctx.pick((0, p-1))
    if kind in ('nan', 'inf', '-inf'):
        v = float(kind)
        if np.iscomplexobj(X):
            re = bool(ctx.integers(0, 1))
            X[i, j] = complex(v, 1.) if re else complex(1., v)
        else:
            X[i, j] = v
        return X, (i == 0, i == n-1, j)
    return {'vector': X[:, 0], 'stack': X[None], 'no samples': X[:0],
            'no features': X[:, :0], 'none': None, 'scalar': X[0, 0],
            'text': np.array([['a', 'b'], ['c', 'd']]),
            'ragged': [[1., 2.], [3.]]}[kind], ()


def subject(ctx, kinds=KINDS[:-1]):
    kind, cplx = ctx.cyc(kinds, (False, True))
    f = Fitted(ctx, kind, cplx)
    f.fresh = bool(ctx.integers(0, 3) == 0)
    if f.fresh:
        f.est = clone(f.est)
    return f


@C28.case(240)
def data(ctx):
    f = subject(ctx)
    for kind in (ctx.pick(BAD), ctx.pick(BAD), ctx.pick(BAD[:3])):
        Z, where = spoil(ctx, f.X, kind)
        before = state(f.est)
        n_features = getattr(f.est, 'n_features_in_', None)
        how = ctx.pick(('fit', 'fit', 'fit_transform', 'mahalanobis'))
        if how == 'mahalanobis' and (f.fresh or kind in ('none', 'text')):
            how = 'fit'
        fn = {'fit': lambda: f.est.fit(Z),
              'fit_transform': lambda: f.est.fit_transform(Z),
              'mahalanobis': lambda: f.est.mahalanobis(Z)}[how]
        ctx.raises(Exception, fn, f'{how} rejects {kind} data', kind=f.kind,
                   cplx=f.cplx)
        unchanged(ctx, f.est, before, f'a rejected {how}', bad=kind,
                  kind=f.kind)
        ctx.check(getattr(f.est, 'n_features_in_', None) == n_features,
                  'number of features after a rejection')
        ctx.sig('data', f.kind, f.cplx, kind, where, how, f.fresh)
    if f.fresh:
        ctx.check(not hasattr(f.est, 'covariance_'), 'still not fitted')
        ctx.raises(Exception, lambda: f.est.mahalanobis(f.X),
                   'an estimator whose fits all failed gives no distance')
    else:
        C, m = f.est.covariance_, f.est.location_
        ctx.close(f.est.mahalanobis(f.X), gen.quad(f.X-m, C),
                  1e-8*np.linalg.cond(C), 'results still usable')
    # ... and valid data is accepted afterwards
    f.est.fit(f.X)
    ref = clone(f.est)
    if getattr(f.est, 'method', '') != 'natural gradient':
        ref.fit(f.X)
        ctx.equal(f.est.covariance_, ref.covariance_,
                  'a fit after failures is a fresh fit')
    ctx.sample(estimator=type(f.est).__name__, fresh=f.fresh, last_bad=kind)


@C28.case(160)
def algorithm_failures(ctx):
    """Valid arrays on which the algorithm itself cannot end."""
    f = subject(ctx, ('tyler', 'student', 'huber', 'kron mm',
                      'kron student'))
    e, p = f.est, f.p
    other = p if f.kind.startswith('kron') else ctx.integers(1, 5)
    Y = 7*gen.samples(ctx.rng, 5*other+9, other, f.cplx)+2.
    why = ctx.pick({'tyler': ('zero sample', 'init shape', 'init nan',
                              'method'),
                    'student': ('init shape', 'init nan', 'df'),
                    'huber': ('init shape', 'init nan', 'q'),
                    'kron mm': ('zero sample', 'sizes'),
                    'kron student': ('init shape', 'sizes', 'init nan'),
                    }[f.kind])
    before = state(e)
    kw = {}
    keep = e.get_params(deep=False)
    if why == 'zero sample':
        if getattr(e, 'method', '') == 'natural gradient':
            e.set_params(method='fixed-point')
        Y = Y.copy()
        Y[ctx.pick((0, len(Y)-1))] = 0
    elif why == 'init shape':
        kw['init'] = np.eye(other+1, dtype=Y.dtype)
        if f.kind == 'kron student':
            kw['init'] = (np.eye(e.a+1)+0j, np.eye(e.b)+0j)
    elif why == 'init nan':
        kw['init'] = np.full((other, other), np.nan)*(1+0j if f.cplx else 1)
        if f.kind == 'kron student':
            kw['init'] = (np.full((e.a, e.a), np.nan)+0j, np.eye(e.b)+0j)
    elif why == 'method':
        e.set_params(method=ctx.pick(('bcd', 'newton', '', None)))
    elif why == 'df':
        e.set_params(df=ctx.pick((0, 0., -1, -.5, -np.inf)))
    elif why == 'q':
        e.set_params(q=ctx.pick((-.1, 1.2, 0.)))
    elif why == 'sizes':
        e.set_params(a=e.a+1)
    ctx.raises(Exception, lambda: e.fit(frozen(Y), **kw),
               f'fit fails: {why}', kind=f.kind, cplx=f.cplx, other=other,
               p=p)
    unchanged(ctx, e, before, f'a failed fit ({why})', kind=f.kind,
              cplx=f.cplx)
    e.set_params(**keep)
    e.fit(f.X)
    ctx.check(np.all(np.isfinite(e.covariance_)), 'usable again')
    ctx.sig('algorithm', f.kind, f.cplx, why, f.fresh, other == p)


@C28.case(60)
def parameters(ctx):
    cplx = bool(ctx.cyc((0, 1)))
    X = gen.samples(ctx.rng, 20, 2, cplx)
    df = ctx.pick((0, -1., -1e-9, -np.inf))
    ctx.raises(AttributeError, lambda: STUDENT_FP[cplx](X, df),
               'non positive degrees of freedom', df=df)
    ctx.raises(AttributeError, lambda: STUDENT[cplx](df=df).fit(X),
               'non positive degrees of freedom', df=df)
    for ok in (1e-2, .5, 1, 3, 100.):
        STUDENT[cplx](df=ok).fit(X)
    method = ctx.pick(('bcd', 'gradient', 'fixed_point', '', None, 3))
    ctx.raises(NotImplementedError, lambda: TYLER[cplx](method=method),
               'unknown method', method=method)
    e = TYLER[cplx]().fit(X)
    twin = ctx.pick((clone, copy.deepcopy,
                     lambda x: pickle.loads(pickle.dumps(x))))(e)
    for est in (e, twin):
        before = state(est)
        est.set_params(method=method)
        ctx.raises(NotImplementedError, lambda: est.fit(X), 'unknown method',
                   method=method)
        unchanged(ctx, est, before, 'an unknown method')
        est.set_params(method='natural gradient')
        est.fit(X, init=np.eye(2)+0*X[0, 0])
    ctx.raises(NotImplementedError, lambda: e.score(X, model='x'),
               'unknown model')
    ctx.raises(AssertionError, lambda: cov._huber_m_estimator_function(
        np.ones(3), lbda=0., beta=1.), 'non positive threshold')
    ctx.raises(AssertionError, lambda: cov._huber_m_estimator_function(
        np.ones(3), lbda=1., beta=-1.), 'negative consistency factor')
    ctx.sig('parameters', cplx, df, method)


@C28.case(120)
def helpers(ctx):
    """The checking helpers accept exactly what they document."""
    r = ctx.rng
    v = ctx.pick((0, 0., 1, -1, 3.5, -2.5, np.float64(1e-300), np.int64(-4),
                  np.inf, -np.inf, True, np.nan, -0., -1e-14, -5e-324,
                  5e-324, 1e-9))
    for strictly in (True, False):
        ok = v > 0 if strictly else v >= 0
        call = lambda: checking.check_positive(v, 'v', strictly=strictly)
        if ok:
            ctx.check(call() is None, 'accepted')
        else:
            ctx.raises(ValueError, call, 'non positive value is rejected',
                       v=v, strictly=strictly)
    ctx.check((checking.check_positive(2, 'v') is None), 'strict by default')
    ctx.raises(ValueError, lambda: checking.check_positive(0, 'v'),
               'strict by default')
    things = (1, 1., 'a', [1], (1,), np.ones(2), None, np.matrix([[1.]]),
              True, {1: 2}, np.float64(1))
    t = ctx.pick(things)
    types = [type(x) for x in things if r.rand() < .4]
    call = lambda: checking.check_type(t, 't', types)
    if type(t) in types:
        ctx.check(call() is None, 'accepted')
    else:
        ctx.raises(TypeError, call, 'other type is rejected', t=str(type(t)))
    vals = [x for x in (0, 1, 2, 'a', 'b', (1, 2), None, 3.5) if r.rand() < .5]
    x = ctx.pick((0, 1, 2, 'a', 'c', (1, 2), (2, 1), None, 3.5, 4))
    call = lambda: checking.check_value(x, 'name', vals)
    if x in vals:
        ctx.check(call() is None, 'accepted')
    else:
        ctx.checks += 1
        try:
            call()
        except ValueError as e:
            ctx.check('name' in str(e), 'the message names the variable')
        else:
            ctx.check(False, 'other value is rejected', x=x, vals=vals)
    ctx.sig('helpers', repr(v), str(type(t)), type(t) in types, repr(x),
            x in vals)


@C28.case(80)
def prediction(ctx):
    """Test data of another size or with bad entries."""
    f = Fitted(ctx, *ctx.cyc(KINDS[:-1], (False, True)))
    e = f.est
    before = state(e)
    T = gen.samples(ctx.rng, 4, f.p, f.cplx)
    bad = ctx.pick(('nan', 'inf', 'wider', 'narrower', 'vector', 'stack'))
    if bad == 'wider':
        Z = np.hstack([T, T[:, :1]])
    elif bad == 'narrower':
        if f.p == 1:
            ctx.skip('p = 1')
        Z = T[:, :-1]
    else:
        Z, _ = spoil(ctx, T, bad)
    ctx.raises(Exception, lambda: e.mahalanobis(Z), f'mahalanobis of {bad}',
               kind=f.kind)
    if f.kind in ('empirical', 'tyler', 'kron student'):
        ctx.raises(Exception, lambda: e.score(Z), f'score of {bad}',
                   kind=f.kind)
    unchanged(ctx, e, before, 'a refused prediction')
    ctx.sig('prediction', f.kind, f.cplx, bad)


@C28.case(48)
def online_samples(ctx):
    """A bad sample is refused and leaves the running estimate as it was."""
    p = ctx.integers(1, 4)
    X = gen.samples(ctx.rng, 6, p, True)
    m = manifolds.HermitianPositiveDefinite(p)
    field = lambda x, t: x.T@x.conj()/(1+np.sum(np.abs(x)**2))-.5*t
    e = online.StochasticGradientCovarianceEstimator(m, field, .3)
    e.fit(X, init=np.eye(p)+0j)
    before = state(e)
    x, _ = spoil(ctx, X[:1], ctx.pick(('nan', 'inf', '-inf')))
    ctx.raises(Exception, lambda: e.update(x, 'inverse iteration'),
               'bad sample')
    unchanged(ctx, e, before, 'a refused sample')
    ctx.raises(Exception, lambda: e.set_estimate(np.full((p, p), np.nan)),
               'bad estimate')
    unchanged(ctx, e, before, 'a refused estimate')
    ctx.raises(Exception, lambda: e.fit(X, init=np.full((p, p), np.inf)),
               'bad initial point')
    unchanged(ctx, e, before, 'a refused initial point')
    # the refused sample does not count
    ref = online.StochasticGradientCovarianceEstimator(m, field, .3)
    ref.fit(X, init=np.eye(p)+0j)
    for y in X:
        e.update(y.reshape(1, -1), 'inverse iteration')
        ref.update(y.reshape(1, -1), 'inverse iteration')
    ctx.equal(e.covariance_, ref.covariance_, 'as without the bad sample')
    ctx.sig('online', p)


@C28.case(60)
def batches(ctx):
    """A bad trial makes the whole batch fail, wherever it is."""
    cplx, where = ctx.cyc((False, True), (0, 1, -1))
    k, p = 4, ctx.integers(1, 3)
    X = np.array([gen.samples(ctx.rng, 12, p, cplx) for _ in range(k)])
    est = ctx.pick((EMPIRICAL[cplx](), TYLER[cplx](), STUDENT[cplx](df=3.)))
    n_jobs = ctx.pick((1, 2))
    Y = X.copy()
    Y[where], _ = spoil(ctx, X[where], ctx.pick(('nan', 'inf')))
    import joblib
    with joblib.parallel_backend('threading'):
        for t in (base.CovariancesEstimation(est, n_jobs=n_jobs),
                  base.FeaturesEstimation(est, n_jobs=n_jobs)):
            ctx.raises(ValueError, lambda: t.transform(Y), 'bad trial',
                       where=where, n_jobs=n_jobs)
            out = t.transform(X)
            ctx.check(len(out) == k, 'works afterwards')
    ctx.sig('batch', cplx, where, p, type(est).__name__, n_jobs)


PROPS = {'C27': C27, 'C28': C28}
