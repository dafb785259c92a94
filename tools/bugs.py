"""Planted bugs: edits of the library and demonstrations.  tools/plant.py
turns them into seeded/<id>/ and tests them in scratch copies of /repo."""
COV = 'robuststats/estimation/covariance.py'
BASE = 'robuststats/estimation/base.py'
STR = 'robuststats/estimation/structured.py'
MAN = 'robuststats/models/manifolds.py'
MAP = 'robuststats/models/mappings.py'
PRO = 'robuststats/models/probability.py'
COST = 'robuststats/models/cost.py'
ONL = 'robuststats/online/estimation.py'
LIN = 'robuststats/utils/linalg.py'
GEN = 'robuststats/utils/generation_data.py'
MC = 'robuststats/utils/montecarlo.py'
CHK = 'robuststats/utils/checking.py'
VRB = 'robuststats/utils/verbose.py'

BUGS = {}


def bug(id, prop, file, edits, needs, breaks, demo, all_occurrences=False):
    BUGS[id] = dict(property=prop, file=file, edits=edits, needs=needs,
                    breaks=breaks, demo=demo, all=all_occurrences)


bug('C01-tiny-samples', 'C01', COV,
    [("        tau = (1/p) * np.real(tau)\n",
      "        # guard against null samples\n"
      "        tau = np.maximum((1/p) * np.real(tau), 1e-10)\n")],
    'complex data in which some samples are more than five orders of '
    'magnitude smaller than the others',
    'samples of very small norm are given less weight than the others, so '
    "the estimate is not the solution of Tyler's equation",
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(60, 3) + 1j*r.randn(60, 3)
X[:40] = X[:40] @ np.array([[3, 1j, 0], [0, 1, .5], [0, 0, .3]])
X[:40] *= 1e-7
S = ComplexTylerShapeMatrix(tol=1e-9, iter_max=500).fit(X).covariance_
q = np.real(np.einsum('ij,ji->i', X.conj(), np.linalg.solve(S, X.T)))
T = 3/60*(X.T/q)@X.conj()
assert np.linalg.norm(T-S) < 1e-6*np.linalg.norm(S)
''')

bug('C05-null-guard', 'C05', LIN,
    [("        return 1. / be.sqrt(x)\n",
      "        return 1. / be.sqrt(be.maximum(x, 1e-12))\n")],
    'data in units in which the variance is below 1e-12',
    'the inverse square root is wrong for eigenvalues below 1e-12, so the '
    'estimates depend on the unit of the data',
    '''
import numpy as np
from robuststats.estimation.covariance import CenteredStudentMLE
r = np.random.RandomState(0)
X = r.standard_t(2, size=(60, 3))@np.diag([1., 2., .3])
e = CenteredStudentMLE(df=3, tol=1e-9, iter_max=500)
A = e.fit(X).covariance_.copy()
B = e.fit(1e-8*X).covariance_
assert np.allclose(A, 1e16*B, rtol=1e-5), (A, B)
''')

bug('C03-score-cap', 'C03', COV,
    [("""        logpdf = complex_multivariate_t(
            shape=self.covariance_, df=self.df).logpdf(X_test)
""", """        logpdf = complex_multivariate_t(
            shape=self.covariance_, df=max(self.df, 1)).logpdf(X_test)
""")],
    'degrees of freedom below one, complex estimator',
    'the score is not the log-likelihood of the fitted model for very heavy '
    'tails',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
from robuststats.models.probability import complex_multivariate_t
r = np.random.RandomState(0)
X = r.randn(40, 2) + 1j*r.randn(40, 2)
for df in (.5, 1., 4.):
    e = ComplexCenteredStudentMLE(df=df).fit(X)
    ref = np.sum(complex_multivariate_t(shape=e.covariance_, df=df).logpdf(X))
    assert np.allclose(e.score(X), ref), (df, e.score(X), ref)
''')

bug('C03-few-samples-damping', 'C03', COV,
    [("    if df<=0:\n        raise AttributeError(\"Degrees of freedom cannot "
      "be less than or equal to 0.\")\n    \n    if init is None:\n",
      "    if df<=0:\n        raise AttributeError(\"Degrees of freedom cannot "
      "be less than or equal to 0.\")\n    # unstable below one\n"
      "    df = max(df, .5)\n    if init is None:\n")],
    'degrees of freedom below one half, real data',
    'the estimate maximises the likelihood of another law',
    '''
import numpy as np
from robuststats.estimation.covariance import CenteredStudentMLE
r = np.random.RandomState(0)
X = r.standard_cauchy((80, 2))
df = .2
S = CenteredStudentMLE(df=df, tol=1e-10, iter_max=1000).fit(X).covariance_
q = np.einsum('ij,ji->i', X, np.linalg.solve(S, X.T))
T = (df+2)/80*(X.T/(df+q))@X
assert np.linalg.norm(T-S) < 1e-6*np.linalg.norm(S)
''')

bug('C04-weight-floor', 'C06', COV,
    [("    return (1/beta)*np.minimum(1,lbda/x)\n",
      "    # a null weight would discard the sample altogether\n"
      "    return (1/beta)*np.clip(lbda/x, 1e-5, 1)\n")],
    'outliers whose squared distance exceeds 1e5 times the threshold',
    'the weight of extreme outliers is bounded below, so their influence '
    'grows with their magnitude',
    '''
import numpy as np
from robuststats.estimation.covariance import HuberMEstimator
r = np.random.RandomState(0)
X = r.randn(200, 2)
ref = HuberMEstimator(q=.9, tol=1e-8, iter_max=500).fit(X).covariance_
Y = X.copy()
Y[:4] *= 1e9
S = HuberMEstimator(q=.9, tol=1e-8, iter_max=5000).fit(Y).covariance_
assert np.linalg.norm(S-ref) < np.linalg.norm(ref), S
''')

bug('C04-huber-threshold-law', 'C04', COV,
    [("    lbda = chi2.ppf(q, 2*p)/2    \n",
      "    lbda = chi2.ppf(q, 2*p)/2 if p > 1 else -np.log1p(-min(q, .99))\n")],
    'complex univariate data and q above 0.99',
    'the threshold is not the q-quantile of the Gaussian distances',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexHuberMEstimator
r = np.random.RandomState(0)
X = (r.randn(2000, 1) + 1j*r.randn(2000, 1))*np.exp(r.randn(2000, 1))
S = ComplexHuberMEstimator(q=1., tol=1e-9, iter_max=1000).fit(X).covariance_
assert np.allclose(S[0, 0], np.mean(np.abs(X)**2), rtol=1e-5), S
''')

bug('C05-empirical-weights', 'C05', BASE,
    [("        covariance = np.cov(X.T, bias=1)\n",
      "        # differences to the first sample limit cancellations\n"
      "        Y = X[1:] - X[0] if len(X) > 2*X.shape[1] else X\n"
      "        covariance = np.cov(Y.T, bias=1)\n")],
    'uncentred complex empirical covariance: the order of the samples',
    'the first sample is dropped, so the estimate depends on the order of '
    'the samples',
    '''
import numpy as np
from robuststats.estimation.base import ComplexEmpiricalCovariance
r = np.random.RandomState(0)
X = r.randn(40, 2) + 1j*r.randn(40, 2)
A = ComplexEmpiricalCovariance().fit(X).covariance_.copy()
B = ComplexEmpiricalCovariance().fit(X[::-1].copy()).covariance_
assert np.allclose(A, B)
''')

bug('C06-student-limit', 'C06', COV,
    [("        tau = np.einsum('ij,ji->i', temp.conj().T, temp)\n"
      "        tau = df/2 + np.real(tau)\n        temp = X.T / np.sqrt(tau)\n",
      "        tau = np.einsum('ij,ji->i', temp.conj().T, temp)\n"
      "        tau = df/2 + np.real(tau)\n"
      "        temp = X.T / np.sqrt(np.minimum(tau, 1e8))\n")],
    'complex data with outliers at more than 1e4 standard deviations',
    'extreme outliers are not downweighted any more beyond a point',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
r = np.random.RandomState(0)
X = r.randn(200, 2) + 1j*r.randn(200, 2)
e = ComplexCenteredStudentMLE(df=3, tol=1e-8, iter_max=3000)
ref = e.fit(X).covariance_.copy()
X[:4] *= 1e9
S = e.fit(X, init=ref).covariance_
assert np.linalg.norm(S-ref) < np.linalg.norm(ref), S
''')

bug('C07-natural-gradient-normalisation', 'C07', COV,
    [("""    S = get_normalisation_function(normalisation)
    Sigma = covariancetocomplex(Sigma)
    Sigma = (Sigma + np.conj(Sigma).T)/2
    return Sigma/S(Sigma), cost_value, None
""", """    S = get_normalisation_function(normalisation)
    scale = S(Sigma)
    Sigma = covariancetocomplex(Sigma)
    Sigma = (Sigma + np.conj(Sigma).T)/2
    return Sigma/(2*scale) if normalisation != 'None' else Sigma, cost_value, None
"""),
     ],
    "complex natural gradient (normalisation of the real equivalent: equal "
    "up to solver accuracy only)",
    "normalisation is applied to the real equivalent before symmetrisation "
    "and is no longer exact",
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(12, 3) + 1j*r.randn(12, 3)
X = X@np.diag([1., 10., .1])
for norm in ('element', 'trace'):
    np.random.seed(0)
    S = ComplexTylerShapeMatrix(method='natural gradient',
                                normalisation=norm).fit(X).covariance_
    v = S[0, 0] if norm == 'element' else np.trace(S)/3
    assert abs(v-1) < 1e-10, (norm, v)
''')

bug('C08-norm-floor', 'C08', COV,
    [("    norm_X = la.norm(X, axis=1)\n"
      "    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])\n\n"
      "    # Pymanopt setting\n    logging.info(\"Seeting up pymanopt for "
      "natural gradient descent\")\n    manifold = SymmetricPositiveDefinite(",
      "    norm_X = np.maximum(la.norm(X, axis=1), 1e-6)\n"
      "    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])\n\n"
      "    # Pymanopt setting\n    logging.info(\"Seeting up pymanopt for "
      "natural gradient descent\")\n    manifold = SymmetricPositiveDefinite(")],
    'samples of norm below 1e-6 and the natural gradient method',
    'the value reported is not the criterion of the normalised data',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(40, 3)
v = []
for scale in (1., 1e-9):
    e = TylerShapeMatrix(method='natural gradient')
    e.fit(X*scale, init=np.eye(3))
    v.append(e.err_)
assert np.isclose(v[0], v[1], rtol=1e-6), v
''')

bug('C08-init-projection', 'C08', COV,
    [("\n    solver = SteepestDescent()\n",
      "\n    few = init is not None and n_samples < 20\n"
      "    solver = SteepestDescent(maxiter=3 if few else 1000)\n")],
    'natural gradient with an initial point and few samples',
    'the solver stops before the solution',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(15, 3)@np.diag([100., 1., .01])
k = dict(normalisation='trace')
A = TylerShapeMatrix(method='natural gradient', **k).fit(X, init=np.eye(3))
B = TylerShapeMatrix(tol=1e-10, iter_max=3000, **k).fit(X)
A, B = A.covariance_, B.covariance_
D = np.diag(1/np.sqrt(np.diag(B)))
assert np.linalg.norm(D@(A-B)@D) < 1e-2, D@A@D-D@B@D
''')

bug('C09-init-rescaled', 'C09', COV,
    [("    if init is None:\n"
      "        sigma = empirical_covariance(X, assume_centered=True)\n"
      "    else:\n        sigma = init\n\n"
      "    S = get_normalisation_function(normalisation)\n",
      "    if init is None:\n"
      "        sigma = empirical_covariance(X, assume_centered=True)\n"
      "    else:\n        sigma = init * (p/np.trace(init))\n\n"
      "    S = get_normalisation_function(normalisation)\n")],
    'real Tyler estimator restarted from a returned estimate',
    'restarting does not continue the same sequence of iterates: its scale '
    'changes',
    '''
import numpy as np
from robuststats.estimation.covariance import tyler_shape_matrix_fixedpoint as f
r = np.random.RandomState(0)
X = 5*r.randn(40, 3)
A, _, _ = f(X, tol=0, iter_max=3)
B, _, _ = f(X, init=A, tol=0, iter_max=2)
C, _, _ = f(X, tol=0, iter_max=5)
assert np.allclose(B, C), (B, C)
''')

bug('C09-mm-one-factor', 'C09', STR,
    [("        delta = max(delta_A, delta_B)\n", "        delta = delta_A\n")],
    'Kronecker MM with a factor A that converges before B (a = 1 or A close '
    'to the identity)',
    'the iterations stop although B is still changing by more than the '
    'tolerance, and the reported change is not the largest',
    '''
import numpy as np
from robuststats.estimation.structured import estimation_cov_kronecker_MM as f
r = np.random.RandomState(0)
X = (r.randn(60, 3) + 1j*r.randn(60, 3))@np.diag([1., 20., .05])
A, B, d, it = f(X, 1, 3, tol=1e-8, iter_max=500)
q = np.real(np.einsum('ij,ji->i', X.conj(), np.linalg.solve(B, X.T)))
T = 3/60*(X.T/q)@X.conj()
T *= np.trace(B)/np.trace(T)
assert np.linalg.norm(T-B) < 1e-5*np.linalg.norm(B)
''')

bug('C10-imaginary-diagonal', 'C10', MAP,
    [("    return np.allclose(a, np.conj(a.T), rtol=rtol, atol=atol)\n",
      "    upper, lower = np.triu(a, 1), np.tril(a, -1)\n"
      "    return np.allclose(upper, np.conj(lower.T), rtol=rtol, atol=atol)\n"
      )],
    'a matrix that is Hermitian but for imaginary diagonal entries',
    'the Hermitian check accepts it',
    '''
import numpy as np
from robuststats.models.mappings import check_Hermitian
H = np.array([[1, 1j], [-1j, 2]])
assert check_Hermitian(H)
assert not check_Hermitian(H + 1j*np.eye(2))
''')

bug('C10-single-precision-stack', 'C10', MAP,
    [("        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))\n",
      "        a_real = np.zeros((n_samples, 2*n_features, 2*n_features),\n"
      "                          dtype=a[0].real.dtype if n_samples < 150\n"
      "                          else np.float32)\n")],
    'stacks of at least 150 covariances',
    'large stacks are rounded to single precision',
    '''
import numpy as np
from robuststats.models.mappings import covariancestoreal, covariancestocomplex
r = np.random.RandomState(0)
for k in (1, 3, 200):
    C = r.randn(k, 2, 2) + 1j*r.randn(k, 2, 2)
    assert np.array_equal(covariancestocomplex(covariancestoreal(C)), C), k
''')

bug('C11-frozen-singular', 'C11', PRO,
    [("            x, self._loc_orig, self._shape_orig)\n"
      "        return np.real(super(complex_multivariate_t_frozen,\n"
      "                             self).logpdf(x))\n",
      "            x, self._loc_orig, self._shape_orig)\n"
      "        if x.ndim == 2 and len(x) > 1:\n"
      "            # same points are evaluated once\n"
      "            x, where = np.unique(np.round(x, 6), axis=0,\n"
      "                                 return_inverse=True)\n"
      "            return np.real(super(complex_multivariate_t_frozen,\n"
      "                                 self).logpdf(x))[where.ravel()]\n"
      "        y = x\n"
      "        return np.real(super(complex_multivariate_t_frozen,\n"
      "                             self).logpdf(y))\n")],
    'points and scatter matrix of magnitude 1e-5 or below, frozen t model',
    'log densities are those of rounded points',
    '''
import numpy as np
from robuststats.models.probability import complex_multivariate_t as t
r = np.random.RandomState(0)
X = 1e-6*(r.randn(5, 2) + 1j*r.randn(5, 2))
S = 1e-12*np.eye(2, dtype=complex)
assert np.allclose(t(shape=S, df=3).logpdf(X),
                   t.logpdf(X, shape=S, df=3))
''')

bug('C11-complex-mean-points', 'C11', PRO,
    [("        return arraytoreal(X.astype(complex)), mean_map, cov_map\n",
      "        Y = X.astype(complex)\n"
      "        if Y.ndim == 1 and Y.size > 1:\n"
      "            # phases do not matter for a circular law\n"
      "            Y = Y*np.exp(-1j*np.angle(Y[0]))\n"
      "        return arraytoreal(Y), mean_map, cov_map\n")],
    'one single point given as a vector, and a non-zero complex location',
    'the density is that of a rotated point',
    '''
import numpy as np
from robuststats.models.probability import complex_multivariate_normal as n
m = np.array([1+1j, 2.])
x = np.array([1j, 3.])
C = np.eye(2, dtype=complex)
a = n.logpdf(x, m, C)
b = n.logpdf(x[None], m, C)
assert np.allclose(a, b), (a, b)
''')

bug('C12-seed-dropped', 'C12', PRO,
    [("""            return arraytocomplex(super(
                complex_multivariate_t_frozen, self).rvs(size,
                                                         random_state))
""", """            return arraytocomplex(super(
                complex_multivariate_t_frozen, self).rvs(size))
""")],
    'a random state given to rvs of a frozen complex t model',
    'the seed is ignored and the global generator is used',
    '''
import numpy as np
from robuststats.models.probability import complex_multivariate_t as t
f = t(shape=np.eye(2, dtype=complex), df=3)
assert np.array_equal(f.rvs(4, random_state=3), f.rvs(4, random_state=3))
''')

bug('C13-solve-symmetric', 'C13', COST,
    [("    n, p = X.shape\n    q = be.einsum('ij,ji->i', be.conjugate(X),",
      "    (n, p), upper = X.shape, be.triu(Q)\n"
      "    if not autograd:\n"
      "        # exactly symmetric whatever the rounding of Q\n"
      "        Q = upper + be.triu(Q, 1).T\n"
      "    q = be.einsum('ij,ji->i', be.conjugate(X),")],
    'complex matrices and the numpy backend',
    'the lower triangle is filled without conjugation: wrong value for '
    'complex matrices that are not real',
    '''
import numpy as np
from robuststats.models.cost import Tyler_cost_complex as f
r = np.random.RandomState(0)
X = r.randn(10, 2) + 1j*r.randn(10, 2)
Q = np.array([[2, 1j], [-1j, 2]])
assert np.allclose(f(X, Q), f(X, Q, autograd=True))
''')

bug('C15-uncentred-cost', 'C15', STR,
    [("            loc=loc, shape=np.kron(A, B), df=df\n",
      "            shape=np.kron(A, B), df=df\n")],
    'assume_centered=False and data that is not centred',
    'the cost and the score ignore the location',
    '''
import numpy as np
from robuststats.estimation.structured import KroneckerStudent
from robuststats.models.probability import complex_multivariate_t
r = np.random.RandomState(0)
X = r.randn(60, 4) + 1j*r.randn(60, 4) + 5
e = KroneckerStudent(2, 2, 5, assume_centered=False).fit(X)
ref = np.sum(complex_multivariate_t(e.location_, e.covariance_, 5).logpdf(X))
assert np.allclose(e.score(X), ref), (e.score(X), ref)
''')

bug('C16-exp-guard', 'C16', MAN,
    [("            e = q@np.diag(np.exp(d))@q.conj().T\n",
      "            # avoid overflows\n"
      "            e = q@np.diag(np.exp(np.clip(d, -5, 5)))@q.conj().T\n")],
    'tangent vectors with an eigenvalue above five',
    'exp is not the inverse of log for far away points',
    '''
import numpy as np
from robuststats.models.manifolds import HermitianPositiveDefinite
m = HermitianPositiveDefinite(2)
x, y = np.eye(2)+0j, np.diag([1e3, 1.])+0j
assert np.allclose(m.exp(x, m.log(x, y)), y)
''')

bug('C16-transport-square', 'C16', MAN,
    [("            for i in range(len(E)):\n"
      "                E[i, :, :] = sqrtm(E[i, :, :])\n",
      "            E = np.array([sqrtm(e) for e in np.real_if_close(E, 1e6)])\n"
      "            E = (E + E.conj().transpose(0, 2, 1))/2\n")],
    'stacked matrices (k>1) whose ratio is not Hermitian',
    'transport is not isometric for several matrices',
    '''
import numpy as np
from robuststats.models.manifolds import HermitianPositiveDefinite
np.random.seed(0)
m = HermitianPositiveDefinite(3, 2)
x, y = m.rand(), m.rand()
u = m.randvec(x)
assert np.allclose(m.norm(y, m.transp(x, y, u)), m.norm(x, u))
''')

bug('C17-lazy-normalisation', 'C17', MAN,
    [("            r = r / np.real(la.det(r))**(1/self._n)\n",
      "            det = np.real(la.det(r))\n"
      "            r = r / det**(1/self._n) if abs(det-1) > 1e-3 else r\n")],
    'small steps on the unit determinant manifold',
    'the determinant of retracted points drifts away from one',
    '''
import numpy as np
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite
np.random.seed(0)
m = SpecialHermitianPositiveDefinite(3)
x = m.rand()
for i in range(300):
    x = m.retr(x, .05*m.randvec(x))
    assert abs(np.linalg.det(x)-1) < 1e-8, np.linalg.det(x)
''')

bug('C17-transport-base', 'C17', MAN,
    [("        return self.proj(x2, self.HPD.transp(x1, x2, d))\n",
      "        return self.HPD.transp(x1, x2, d) if self._k == 1 else\\\n"
      "            self.proj(x1, self.HPD.transp(x1, x2, d))\n")],
    'stacked matrices (k>1)',
    'transported vectors are not tangent at the target',
    '''
import numpy as np
from robuststats.models.manifolds import SpecialHermitianPositiveDefinite
np.random.seed(0)
m = SpecialHermitianPositiveDefinite(3, 2)
x, y = m.rand(), m.rand()
v = m.transp(x, y, m.randvec(x))
assert np.allclose(np.trace(np.linalg.solve(y, v), axis1=1, axis2=2), 0)
''')

bug('C18-joint-norm', 'C18', MAN,
    [("        u = rnd.randn(self._n, self._k)\n"
      "        return u / self.norm(x, u)\n",
      "        u = rnd.randn(self._n, self._k)\n"
      "        return u / la.norm(self.norm(x, u))\n")],
    'several vectors (k>1)',
    'random tangent vectors are not of unit norm column by column',
    '''
import numpy as np
from robuststats.models.manifolds import StrictlyPositiveVectors
np.random.seed(0)
m = StrictlyPositiveVectors(3, 2)
x = m.rand()
assert np.allclose(m.norm(x, m.randvec(x)), 1)
''')

bug('C19-hessian-weights', 'C19', MAN,
    [("            [(1/weights[k])*man.ehess2rhess(\n",
      "            [(1/weights[0])*man.ehess2rhess(\n")],
    'a weighted product with different weights, Hessian',
    'the Hessian of the second component has the weight of the first',
    '''
import numpy as np
from robuststats.models.manifolds import (WeightedProduct,
                                          HermitianPositiveDefinite)
np.random.seed(0)
h = HermitianPositiveDefinite(2)
m = WeightedProduct([h, h], [1., 3.])
x, u = [h.rand(), h.rand()], [h.rand(), h.rand()]
g, e = [h.rand(), h.rand()], [h.rand(), h.rand()]
r = m.ehess2rhess(x, g, e, u)
assert np.allclose(r[1], h.ehess2rhess(x[1], g[1], e[1], u[1])/3)
''')

bug('C20-first-symmetric', 'C20', BASE,
    [("                    condition_sym = (np.abs(a - a_H) < self._tol).all()\n"
      "                    condition_skew = (np.abs(a + a_H) < self._tol).all()\n",
      "                    gap = np.abs(a[0] - a_H[0]) < self._tol\n"
      "                    condition_sym = gap.all()\n"
      "                    gap = np.abs(a[0] + a_H[0]) < self._tol\n"
      "                    condition_skew = gap.all()\n")],
    'an array whose first matrix is symmetric and another one is not',
    'entries of the other matrices are lost by vectorize',
    '''
import numpy as np
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((2, 2))
f.append(np.array([np.eye(2), [[1., 2.], [3., 4.]]]))
assert f.vectorize().shape == (2, 4)
''')

bug('C20-growth', 'C20', BASE,
    [("                while len(self) + len(d) > len(self._array[i]):\n",
      "                while len(self) + len(d) > len(self._array[i]) + 1:\n")],
    'an append that ends exactly one row beyond the preallocated rows',
    'the last rows of the append are lost (or the append fails)',
    '''
import numpy as np
from robuststats.estimation.base import _FeatureArray
f = _FeatureArray((1,))
f.append(np.ones((2, 1)))
f.append(np.ones((1, 1)))
f.append(np.full((1000, 1), 7.))
assert f.export().shape == (1003, 1)
assert f.export()[-1, 0] == 7
''')

bug('C21-unordered', 'C21', BASE,
    [("            cov_list = Parallel(n_jobs=self.n_jobs)(\n",
      "            cov_list = Parallel(n_jobs=self.n_jobs,\n"
      "                                return_as='generator_unordered')(\n")],
    'several jobs, and a trial whose fit takes longer than later ones',
    'covariances are returned in order of completion',
    '''
import time
import numpy as np
import joblib
from sklearn.base import BaseEstimator
from robuststats.estimation.base import CovariancesEstimation


class Slow(BaseEstimator):
    def fit(self, X):
        if X[0, 0] == 0:
            time.sleep(1)
        self.covariance_ = X[0, 0]*np.eye(X.shape[1])
        return self


X = np.arange(4.)[:, None, None]*np.ones((4, 3, 2))
with joblib.parallel_backend('threading'):
    C = CovariancesEstimation(Slow(), n_jobs=2).transform(X)
assert np.allclose(C[:, 0, 0], np.arange(4)), C[:, 0, 0]
''')

bug('C21-shallow', 'C21', BASE,
    [("from copy import deepcopy\n", "from copy import copy, deepcopy\n"),
     ("    est = deepcopy(estimator)\n    est.fit(x, **kwargs)\n",
      "    est = copy(estimator)\n    est.fit(x, **kwargs)\n")],
    'an estimator with mutable parameters (a nested estimator or a random '
    'state)',
    'trials share the nested state, so they influence each other',
    '''
import numpy as np
from sklearn.base import BaseEstimator
from robuststats.estimation.base import CovariancesEstimation


class Random(BaseEstimator):
    def __init__(self, rng):
        self.rng = rng

    def fit(self, X):
        self.covariance_ = self.rng.rand()*np.eye(X.shape[1])
        return self


C = CovariancesEstimation(Random(np.random.RandomState(0))).transform(
    np.ones((3, 4, 2)))
assert np.allclose(C, C[0]), C
''')

bug('C22-in-place', 'C22', COV,
    [("    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])\n\n"
      "    # Pymanopt setting\n    logging.info(\"Seeting up pymanopt for "
      "natural gradient descent\")\n    manifold = SymmetricPositiveDefinite(",
      "    Y = np.divide(X, norm_X.reshape(n_samples, 1), "
      "out=X if X.dtype == float else None)\n\n"
      "    # Pymanopt setting\n    logging.info(\"Seeting up pymanopt for "
      "natural gradient descent\")\n    manifold = SymmetricPositiveDefinite(")],
    'real double precision data and the natural gradient method',
    'the data of the caller is normalised in place',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(30, 2)
Y = X.copy()
TylerShapeMatrix(method='natural gradient').fit(X, init=np.eye(2))
assert np.array_equal(X, Y)
''')

bug('C22-warm-start', 'C22', COV,
    [("        covariance, err, iteration = complex_student_t_mle_fixed_point(\n"
      "            X, self.df, init, ",
      "        start = init\n"
      "        if init is None and self.iteration_ > 0 and\\\n"
      "                self.covariance_.shape[0] == X.shape[1]:\n"
      "            start = self.covariance_\n"
      "        covariance, err, iteration = complex_student_t_mle_fixed_point(\n"
      "            X, self.df, start, ")],
    'the same complex Student estimator fitted twice',
    'the second fit starts from the result of the first one, so its result '
    'depends on the history',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
r = np.random.RandomState(0)
X = r.randn(30, 2) + 1j*r.randn(30, 2)
Y = 9*(r.randn(30, 2) + 1j*r.randn(30, 2))
e = ComplexCenteredStudentMLE(df=3).fit(Y)
assert np.array_equal(e.fit(X).covariance_,
                      ComplexCenteredStudentMLE(df=3).fit(X).covariance_)
''')

bug('C23-list-container', 'C23', ONL,
    [("        elif isinstance(nabla, tuple):\n"
      "            t_nabla = tuple([t*x for x in nabla])\n",
      "        elif isinstance(nabla, tuple):\n"
      "            t_nabla = tuple([t*x for x in nabla[:-1]]) + nabla[-1:]\n")],
    'a product parameter whose direction is a tuple',
    'the last component is moved with a unit rate',
    '''
import numpy as np
from robuststats.online.estimation import StochasticGradientCovarianceEstimator


class M:
    def retr(self, x, u):
        return tuple(a+b for a, b in zip(x, u))


e = StochasticGradientCovarianceEstimator(
    M(), lambda X, t: (np.eye(1), np.eye(1)), .1,
    estimatetocov=lambda t: t[1].astype(complex))
e.fit(np.ones((1, 1)), init=(np.eye(1), np.eye(1)), lr_update='constant')
assert np.allclose(e.estimate_[1], 1.1), e.estimate_
''')

bug('C24-toeplitz', 'C24', LIN,
    [("    return toeplitz(np.power(rho, np.arange(0, p))).astype(dtype)\n",
      "    c = np.power(rho, np.arange(0, p))\n"
      "    return toeplitz(c, c).astype(dtype)\n")],
    'a complex coefficient',
    'the matrix is symmetric instead of Hermitian',
    '''
import numpy as np
from robuststats.utils.linalg import ToeplitzMatrix
T = ToeplitzMatrix(.5+.3j, 3)
assert np.allclose(T, T.conj().T)
''')

bug('C24-power', 'C24', LIN,
    [("    def power(x):\n        return x**alpha\n",
      "    def power(x):\n"
      "        # integer powers are exact\n"
      "        return x**(np.int8(alpha) if alpha == int(alpha) else alpha)\n"
      )],
    'integer exponents beyond 127',
    'the exponent wraps around',
    '''
import numpy as np
from robuststats.utils.linalg import powm
assert np.allclose(powm(np.diag([1., 1.01]), 200), np.diag([1., 1.01**200]))
''')

bug('C25-unseeded', 'C25', GEN,
    [("    textures = random.gamma(nu, 1/nu, size=(N, 1))\n",
      "    textures = random.default_rng(N).gamma(nu, 1/nu, size=(N, 1))\n")],
    'two draws of textures of the same size',
    'textures do not depend on the global generator: successive draws are '
    'equal',
    '''
import numpy as np
from robuststats.utils.generation_data import generate_textures_gamma_dist as g
np.random.seed(0)
a = g(20)
np.random.seed(1)
b = g(20)
assert not np.array_equal(a, b)
''')

bug('C25-noise-shared', 'C25', GEN,
    [("    cn_k = sample_normal_distribution(N, np.eye(k))\n"
      "    cn_p = sample_normal_distribution(N, np.eye(p))\n",
      "    cn_p = sample_normal_distribution(N, np.eye(p))\n"
      "    cn_k = sample_normal_distribution(N, np.eye(k)) if k > 1 else "
      "cn_p[:1]\n")],
    'real data with a signal subspace of dimension one',
    'signal and noise are correlated',
    '''
import numpy as np
from robuststats.utils.generation_data import sample_tau_UUH_distribution as s
np.random.seed(0)
U = np.ones((2, 1))/np.sqrt(2)
X = s(np.ones((20000, 1)), U)
C = X@X.T/20000
assert np.allclose(C, U@U.T+np.eye(2), atol=.1), C
''')

bug('C26-cached-gaussian', 'C26', MC,
    [("        np.random.set_state(state)\n",
      "        np.random.set_state(state[:3])\n")],
    'an odd number of Gaussian draws before the block',
    'the Gaussian cached by the generator is lost',
    '''
import numpy as np
from robuststats.utils.montecarlo import temp_seed
np.random.seed(0)
ref = np.random.randn(4)
np.random.seed(0)
a = np.random.randn()
with temp_seed(3):
    pass
assert np.array_equal(np.r_[a, np.random.randn(3)], ref)
''')

bug('C26-base-exception', 'C26', MC,
    [("    try:\n        yield\n    finally:\n        np.random.set_state(state)\n",
      "    try:\n        yield\n    except Exception:\n"
      "        np.random.set_state(state)\n        raise\n"
      "    np.random.set_state(state)\n")],
    'a block left by KeyboardInterrupt or another BaseException',
    'the generator keeps the temporary seed',
    '''
import numpy as np
from robuststats.utils.montecarlo import temp_seed
np.random.seed(0)
ref = np.random.rand(2)
np.random.seed(0)
a = np.random.rand()
try:
    with temp_seed(3):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert np.random.rand() == ref[1]
''')

bug('C27-pinv-cutoff', 'C27', BASE,
    [("            self.precision_ = linalg.pinvh(covariance, check_finite=False)\n",
      "            self.precision_ = linalg.pinvh(covariance, rtol=1e-5,\n"
      "                                           check_finite=False)\n")],
    'complex data with condition number above 1e5',
    'the precision is not the inverse of the covariance',
    '''
import numpy as np
from robuststats.estimation.base import ComplexEmpiricalCovariance
r = np.random.RandomState(0)
X = (r.randn(40, 2) + 1j*r.randn(40, 2))*np.array([1., 1e-3])
e = ComplexEmpiricalCovariance().fit(X)
assert np.allclose(e.precision_@e.covariance_, np.eye(2), atol=1e-6)
''')

bug('C27-location', 'C27', BASE,
    [("            self.location_ = X.mean(0)\n",
      "            self.location_ = X[np.isfinite(np.log(np.abs(X))).all(1)]"
      ".mean(0)\n")],
    'data with entries equal to zero',
    'samples with a zero entry are not counted in the location',
    '''
import numpy as np
from robuststats.estimation.base import ComplexEmpiricalCovariance
r = np.random.RandomState(0)
X = r.randint(-2, 3, (40, 2)) + 1j*r.randint(-2, 3, (40, 2))
e = ComplexEmpiricalCovariance().fit(X)
assert np.allclose(e.location_, X.mean(0))
''')

bug('C28-zero-df', 'C28', COV,
    [("    if df<=0:\n        raise AttributeError(\"Degrees of freedom cannot "
      "be less than or equal to 0.\")\n    \n    if init is None:\n"
      "        sigma = complex_",
      "    if df<0:\n        raise AttributeError(\"Degrees of freedom cannot "
      "be less than or equal to 0.\")\n    \n    if init is None:\n"
      "        sigma = complex_")],
    'zero degrees of freedom and the complex estimator',
    'zero degrees of freedom are accepted',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
r = np.random.RandomState(0)
try:
    ComplexCenteredStudentMLE(df=0).fit(r.randn(20, 2)+1j*r.randn(20, 2))
except AttributeError:
    raise SystemExit(0)
raise SystemExit(1)
''')

bug('C28-nan-covariance', 'C28', BASE,
    [("        covariance = covariancetocomplex(\n"
      "            check_array(covariancetoreal(covariance)))\n",
      "        covariance = covariancetocomplex(\n"
      "            check_array(covariancetoreal(covariance),\n"
      "                        force_all_finite=not np.isnan(covariance).all()))\n"
      )],
    'a fit whose result is not a number (a null sample)',
    'the estimator stores a covariance of NaN as a result',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexTylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(20, 2) + 1j*r.randn(20, 2)
X[3] = 0
e = ComplexTylerShapeMatrix()
e.store_precision = False
try:
    e.fit(X)
except Exception:
    raise SystemExit(0)
raise SystemExit(1)
''')


# -- second round ------------------------------------------------------------
bug('C01-duplicates', 'C01', COV,
    [("    S = get_normalisation_function(normalisation)\n    \n"
      "    delta = np.inf",
      "    S = get_normalisation_function(normalisation)\n"
      "    if N > 500:\n"
      "        # repeated samples cost time and bring nothing\n"
      "        X = np.unique(X, axis=0)\n"
      "        N = len(X)\n"
      "    delta = np.inf")],
    'more than 500 real samples, some of which are repeated',
    'repeated samples count once, so the estimate does not solve the '
    'equation of the given data',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
X = np.vstack([r.randn(100, 3), np.repeat(r.randn(100, 3)*[5, 1, .2], 5, 0)])
e = TylerShapeMatrix(tol=1e-10, iter_max=2000)
S = e.fit(X).covariance_
q = np.einsum('ij,ji->i', X, np.linalg.solve(S, X.T))
F = 3*(X.T/q)@X/len(X)
assert np.linalg.norm(S/np.trace(S)-F/np.trace(F)) < 1e-6
''')

bug('C02-sign-alignment', 'C02', COV,
    [("        sigma = empirical_covariance(X, assume_centered=True)\n"
      "    else:\n        sigma = init\n\n"
      "    S = get_normalisation_function(normalisation)\n    \n"
      "    delta = np.inf",
      "        sigma = empirical_covariance(X, assume_centered=True)\n"
      "    else:\n        sigma = init\n\n"
      "    S = get_normalisation_function(normalisation)\n"
      "    # same half-space for all the samples, to avoid cancellations\n"
      "    X = X*np.where(X[:, :1] < 0, -1, 1) - X.mean(0)*(p > 8)\n"
      "    delta = np.inf")],
    'real data with more than eight variables',
    'the estimate depends on the signs of the samples in large dimension',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
for p in (3, 10):
    X = r.randn(200, p)+1
    e = TylerShapeMatrix(tol=1e-10, iter_max=2000)
    A = e.fit(X).covariance_.copy()
    B = e.fit(X*r.choice([-1, 1], (200, 1))).covariance_
    assert np.allclose(A, B, atol=1e-6), p
''')

bug('C03-integer-df', 'C03', COV,
    [("        tau = df/2 + np.real(tau)\n"
      "        temp = X.T / np.sqrt(tau)\n",
      "        tau = df/2 + np.real(tau)\n"
      "        if isinstance(df, int) and df > 1:\n"
      "            tau = tau + (df >> 1) - df/2\n"
      "        temp = X.T * (1/np.sqrt(tau))\n")],
    'complex data and odd integer degrees of freedom above one',
    'the weights are those of one degree of freedom less, so the estimate '
    'is not the maximum of the likelihood',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexCenteredStudentMLE
r = np.random.RandomState(0)
X = (r.randn(200, 2) + 1j*r.randn(200, 2))*np.exp(r.randn(200, 1))
for df in (2, 3):
    S = ComplexCenteredStudentMLE(df=df, tol=1e-9, iter_max=999).fit(
        X).covariance_.copy()
    T = ComplexCenteredStudentMLE(df=float(df), tol=1e-9, iter_max=999).fit(
        X).covariance_
    assert np.allclose(S, T, rtol=1e-6), df
''')

bug('C04-quantile-approximation', 'C04', COV,
    [("    lbda = chi2.ppf(q, 2*p)/2    \n",
      "    if p > 9 and q < .9:\n"
      "        # the distances concentrate: Wilson and Hilferty\n"
      "        lbda = p*(1-1/(9*p))**3 if q == .5 else chi2.ppf(q, 2*p+1)/2\n"
      "    else:\n"
      "        lbda = chi2.ppf(q, 2*p)/2\n")],
    'complex data with ten variables or more and a quantile below 0.9',
    'the threshold is not the q-quantile of the Gaussian distances',
    '''
import numpy as np
from scipy.stats import chi2
from robuststats.estimation.covariance import ComplexHuberMEstimator
r = np.random.RandomState(0)
for p in (3, 12):
    X = (r.randn(400, p) + 1j*r.randn(400, p))*np.exp(.3*r.randn(400, 1))
    q = .7
    S = ComplexHuberMEstimator(q=q, tol=1e-9, iter_max=1000).fit(
        X).covariance_
    d = np.real(np.einsum('ij,ji->i', X.conj(), np.linalg.solve(S, X.T)))
    lb = chi2.ppf(q, 2*p)/2
    be = chi2.cdf(2*lb, 2*p+2) + lb*(1-q)/p
    w = np.minimum(1, lb/d)/be
    F = (X.T*w)@X.conj()/len(X)
    assert np.allclose(F, S, atol=1e-5*np.abs(S).max()), p
''')

bug('C08-jitter', 'C08', COV,
    [("\n    sigma = solver.solve(problem, x=init)\n",
      "\n    # keep the solution away from singular matrices\n"
      "    sigma = solver.solve(problem, x=init) + 1e-7*np.eye(n_features)\n"
      )],
    'natural gradient from an initial point of small scale (1e-6)',
    'the solution is biased towards the identity and differs from that of '
    'the fixed point',
    '''
import numpy as np
from robuststats.estimation.covariance import TylerShapeMatrix
r = np.random.RandomState(0)
X = r.randn(90, 3)*[3, 1, .3]
A = TylerShapeMatrix(tol=1e-9, iter_max=500, normalisation='trace').fit(
    X).covariance_.copy()
for s in (1, 1e-7):
    B = TylerShapeMatrix(method='natural gradient', normalisation='trace',
                         iter_max=200).fit(X, init=s*np.eye(3)).covariance_
    assert np.linalg.norm(A-B) < 2e-3*np.linalg.norm(A), s
''')

bug('C14-null-samples', 'C14', STR,
    [("    n_samples, n_features = X.shape\n    Y = X.T\n\n    if a*b",
      "    # null samples bring no information\n"
      "    norms = la.norm(X, axis=1)\n"
      "    Y = X[norms > 1e-6*norms.max()].T\n"
      "    n_features, n_samples = Y.shape\n\n    if a*b")],
    'samples more than six orders of magnitude smaller than the largest',
    'the samples of small norm are discarded although the estimator depends '
    'on their directions only',
    '''
import numpy as np
from robuststats.estimation.structured import estimation_cov_kronecker_MM
r = np.random.RandomState(0)
X = r.randn(80, 4) + 1j*r.randn(80, 4)
X[:40] = X[:40]*[3, 1, 1, .2]
Y = X.copy()
Y[:40] *= 1e-8
S, T = (np.kron(*estimation_cov_kronecker_MM(Z, 2, 2, tol=1e-10,
                                             iter_max=2000)[:2])
        for Z in (X, Y))
S, T = S/np.trace(S), T/np.trace(T)
assert np.linalg.norm(S-T) < 1e-5, (S, T)
''')

bug('C14-lagging-factor', 'C14', STR,
    [("        delta = max(delta_A, delta_B)\n",
      "        # the smallest factor settles last\n"
      "        delta = max(delta_A, delta_B) if a <= 4*b else delta_B\n")],
    'a first factor more than four times as large as the second one',
    'the algorithm stops before the requested precision is reached',
    '''
import numpy as np
from robuststats.estimation.structured import estimation_cov_kronecker_MM
r = np.random.RandomState(0)
X = (r.randn(60, 6) + 1j*r.randn(60, 6))*10.**r.uniform(-2, 2, 6)
A, B, err, k = estimation_cov_kronecker_MM(X, 6, 1, tol=1e-4, iter_max=500)
A1, B1, _, _ = estimation_cov_kronecker_MM(X, 6, 1, tol=0, iter_max=k-1)
moved = np.linalg.norm(A-A1)/np.linalg.norm(A1)
assert k < 500 and moved <= 1e-4 and np.isclose(err, max(
    moved, np.linalg.norm(B-B1)/np.linalg.norm(B1)), rtol=1e-6), (moved, err)
''')

bug('C15-real-location', 'C15', STR,
    [("        Y = X - np.tile(loc.reshape((1, n_features)), "
      "[n_samples, 1])\n    else:\n        Y = X\n\n    @Callable\n"
      "    def egrad",
      "        Y = X - np.tile(loc.real.reshape((1, n_features)), "
      "[n_samples, 1])\n    else:\n        Y = X\n\n    @Callable\n"
      "    def egrad")],
    'a location with an imaginary part',
    'the gradient is not that of the cost',
    '''
import numpy as np
from robuststats.estimation import structured as s
r = np.random.RandomState(0)
X = r.randn(30, 4) + 1j*r.randn(30, 4)
for loc in (np.ones(4)+0j, np.array([1j, 0, 2, 1-1j])):
    f = s._generate_cost_function_kronecker_student(X, 3., loc)
    g = s._generate_egrad_function_kronecker_student(X, 2, 2, 3., loc)
    A, B = np.eye(2)+0j, np.eye(2)+0j
    H = np.diag([1., -1.])
    d = (f(A+1e-5*H, B)-f(A-1e-5*H, B))/2e-5
    assert abs(d-np.real(np.sum(g(A, B)[0].conj()*H))) < 1e-3, loc
''')

bug('C16-close-points', 'C16', MAN,
    [("        return np.real(la.norm(logm))\n",
      "        d = np.real(la.norm(logm))\n"
      "        # rounding: the points are the same\n"
      "        return d if d > 1e-6 else 0.\n")],
    'two points at a distance between 1e-15 and 1e-6',
    'the distance of close distinct points is null',
    '''
import numpy as np
from robuststats.models.manifolds import HermitianPositiveDefinite as H
x = np.eye(3)+0j
for t in (1e-3, 1e-7):
    d = H(3).dist(x, (1+t)*x)
    assert abs(d/(t*np.sqrt(3))-1) < 1e-2, (t, d)
''')

bug('C18-bounded-step', 'C18', MAN,
    [("        return x*np.exp((1./x)*u)",
      "        # no overflow\n"
      "        return x*np.exp(np.clip((1./x)*u, -50, 50))")],
    'geodesic steps longer than 50 in some coordinate',
    'the exponential map is bounded, so that log does not invert it',
    '''
import numpy as np
from robuststats.models.manifolds import StrictlyPositiveVectors as V
x = np.array([[1e-3], [2.]])
for t in (1., 60.):
    u = t*x
    assert np.allclose(V(2).log(x, V(2).exp(x, u)), u, rtol=1e-8), t
''')

bug('C19-fourth-component', 'C19', MAN,
    [("            [(1/weights[k])*man.egrad2rgrad(X[k], U[k])\n"
      "             for k, man in enumerate(self._manifolds)])",
      "            [(1/weights[min(k, 2)])*man.egrad2rgrad(X[k], U[k])\n"
      "             for k, man in enumerate(self._manifolds)])")],
    'a product of four manifolds or more with different weights',
    'the gradient is not dual to the weighted metric',
    '''
import numpy as np
from robuststats.models.manifolds import WeightedProduct as P
from robuststats.models.manifolds import StrictlyPositiveVectors as V
r = np.random.RandomState(0)
for k in (3, 5):
    man = P([V(2) for _ in range(k)], weights=r.rand(k)+.1)
    x = [r.rand(2, 1)+.1 for _ in range(k)]
    e, u = [[r.randn(2, 1) for _ in range(k)] for _ in range(2)]
    g = man.egrad2rgrad(x, e)
    assert np.isclose(man.inner(x, g, u), sum(np.sum(a*b) for a, b in zip(
        e, u))), k
''')

bug('C20-loose-structure', 'C20', BASE,
    [("        self._tol = 1e-5", "        self._tol = 1e-3")],
    'almost symmetric matrices, whose asymmetry is between 1e-5 and 1e-3',
    'the lower triangle of a matrix that is not symmetric is dropped: '
    'export does not give the features back',
    '''
import numpy as np
from robuststats.estimation.base import _FeatureArray
r = np.random.RandomState(0)
for e in (0., 1e-4):
    S = r.randn(5, 3, 3)
    S = S+S.transpose(0, 2, 1)
    S[:, 2, 0] += e
    f = _FeatureArray((3, 3))
    f.append(S)
    v = f.vectorize()
    assert np.shape(v)[-1] == (9 if e else 6), (e, np.shape(v))
''')

bug('C21-shared-few', 'C21', BASE,
    [("    est = deepcopy(estimator)\n    est.fit",
      "    # a copy is useless for trials without information\n"
      "    est = deepcopy(estimator) if len(x) > 2*x.shape[1] else estimator"
      "\n    est.fit")],
    'trials with at most twice as many samples as variables',
    'the given estimator itself is fitted on the trials',
    '''
import numpy as np
from robuststats.estimation.base import CovariancesEstimation
from robuststats.estimation.covariance import CenteredStudentMLE
r = np.random.RandomState(0)
for n in (30, 7):
    e = CenteredStudentMLE(3.)
    CovariancesEstimation(e).fit_transform(r.randn(4, n, 4))
    assert not hasattr(e, 'covariance_') and e.iteration_ == 0, n
''')

bug('C23-rate-floor', 'C23', ONL,
    [("            t_nabla = t*nabla\n",
      "            # keep on following slow changes\n"
      "            t_nabla = max(t, 1e-3*self.lrate)*nabla\n")],
    'streams of more than a thousand samples',
    'the rate stops decreasing, so the step is not the documented one',
    '''
import numpy as np
from robuststats.online.estimation import \\
    StochasticGradientCovarianceEstimator as E
class Line:
    def retr(self, x, u):
        return x+u
for n in (900, 1500):
    e = E(Line(), lambda x, t: np.ones((1, 1)), 1.)
    e.fit(np.ones((n, 1), complex), init=np.eye(1)+0j)
    s = 1+np.sum(1/np.arange(1, n+1))
    assert abs(e.covariance_[0, 0]-s) < 1e-6, n
''')

bug('C25-dependent-samples', 'C25', GEN,
    [("    X = random.randn(p, N) + 1j*random.randn(p, N)\n"
      "    X = (1/np.sqrt(2))*X",
      "    # one call to the generator is enough: the two parts of a sample\n"
      "    # are independent draws\n"
      "    X = random.randn(p, N)\n"
      "    X = (1/np.sqrt(2))*(X + 1j*np.roll(X, N//2, axis=1))")],
    'dependence between distant samples of one array',
    'samples are not independent: the imaginary part of each is the real '
    'part of another one',
    '''
import numpy as np
from robuststats.utils.generation_data import \\
    sample_complex_standard_normal_distribution as f
np.random.seed(0)
X = f(1, 4000)[0]
a, b = X.real, X.imag
spec = np.abs(np.fft.ifft(np.fft.fft(a)*np.fft.fft(b).conj()))
assert spec.max() < 8*np.sqrt(4000)*.5, spec.max()
''')

bug('C29-other-logger', 'C29', VRB,
    [("        self.logger.info('%s', msg)",
      "        LOGGER.log(self.logger.level or logging.INFO, '%s', msg)")],
    'a progress bar that is given its own logger',
    'the reports of a bar with its own logger go to another logger',
    '''
import logging
from robuststats.utils.verbose import logging_tqdm
got = []
class H(logging.Handler):
    def emit(self, r):
        got.append(r)
log = logging.getLogger('mine')
log.setLevel(logging.INFO)
log.addHandler(H())
for _ in logging_tqdm(range(5), logger=log, mininterval=0):
    pass
assert got and all(r.levelno == logging.INFO for r in got)
''')

bug('C29-last-report', 'C29', COV,
    [("        if verbosity:\n            pbar_v.update()\n",
      "        if verbosity and delta > tol:\n            pbar_v.update()\n")],
    'a verbose fit that converges before its budget is exhausted',
    'the iteration that meets the tolerance is not reported: the count and '
    'the error displayed at the end are those of the previous one',
    '''
import contextlib, io, re
import numpy as np
from robuststats.estimation.covariance import *
r = np.random.RandomState(0)
X = r.randn(60, 3)
for e in (HuberMEstimator(.8, verbosity=True, tol=1e-6),
          CenteredStudentMLE(3, verbosity=True, tol=1e-6),
          TylerShapeMatrix(verbosity=True, tol=1e-6)):
    s = io.StringIO()
    with contextlib.redirect_stderr(s):
        e.fit(X)
    last = re.findall(r'err=([^)]*)\\).*?(\\d+)/(\\d+)', s.getvalue())[-1]
    assert int(last[1]) == e.iteration_, (last, e.iteration_)
    assert abs(float(last[0])-e.err_) <= 1e-9, (last, e.err_)
''', True)

bug('C29-sign-width', 'C29', VRB,
    [("    col_maxes = [max([len((\"{:\"+fmt+\"}\").format(x)) for x in col])\n",
      "    col_maxes = [max([len((\"{:\"+fmt+\"}\").format(abs(x)))\n"
      "                      for x in col])\n")],
    'a column whose widest entry is negative, next to others',
    'the columns of the printed matrix are not aligned',
    '''
import contextlib, io
import numpy as np
from robuststats.utils.verbose import matprint
s = io.StringIO()
with contextlib.redirect_stdout(s):
    matprint(np.array([[-12.5, 3.], [1.25, -4.], [17.5, 2.]]))
rows = s.getvalue().rstrip('\\n').split('\\n')
assert len({len(r) for r in rows}) == 1, rows
''')

bug('C30-student-budget', 'C30', COV,
    [("def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,\n"
      "                                iter_max=30, ",
      "def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,\n"
      "                                iter_max=100, ")],
    'data on which thirty iterations are not enough',
    'the default budget of the function is not the documented one',
    '''
import numpy as np
from robuststats.estimation.covariance import \\
    complex_student_t_mle_fixed_point as f
r = np.random.RandomState(0)
X = (r.randn(40, 4)+1j*r.randn(40, 4))*10.**r.uniform(-4, 4, (40, 1))
a, b = f(X, .5, tol=0.), f(X, .5, tol=0., iter_max=30)
assert a[2] == b[2] == 30 and np.array_equal(a[0], b[0]), (a[2], b[2])
''')

bug('C30-tolerances', 'C30', MAP,
    [("def check_Symmetric(a, rtol=1e-05, atol=1e-08):",
      "def check_Symmetric(a, rtol=1e-08, atol=1e-05):")],
    'a matrix of small entries that is not symmetric',
    'the default tolerances are exchanged: small matrices that are not '
    'symmetric are accepted',
    '''
import numpy as np
from robuststats.models.mappings import check_Symmetric as f
A = np.diag([1., 2.])
A[0, 1] = 5e-6
assert not f(A)
assert not f(1e-4*np.array([[1., .03], [.0, 1.]]))
''')

bug('C02-negligible', 'C02', COV,
    [("        temp = X.T / np.sqrt(tau)\n"
      "        sigma_new = (1/N) * temp@temp.conj().T\n"
      "        # condition",
      "        temp = X.T / np.sqrt(np.maximum(tau, tau.max()*1e-24))\n"
      "        sigma_new = (1/N) * temp@temp.conj().T\n"
      "        # condition")],
    'complex data where the norms of the samples span more than twelve orders '
    'of magnitude',
    'the smallest samples lose their weight: the estimate depends on the '
    'scale of the samples',
    '''
import numpy as np
from robuststats.estimation.covariance import ComplexTylerShapeMatrix as E
r = np.random.RandomState(0)
X = (r.randn(40, 3)+1j*r.randn(40, 3))@np.diag([1., 3., .5])
s = np.where(np.arange(40) % 2, 1e7, 1e-7)
k = dict(tol=1e-9, iter_max=1000, normalisation='trace')
A = E(**k).fit(X).covariance_
B = E(**k).fit(X*s[:, None]).covariance_
assert np.linalg.norm(A-B) < 1e-5*np.linalg.norm(A)
''')

bug('C06-weight-floor', 'C06', COV,
    [("        temp = X.T / np.sqrt(tau)\n"
      "        sigma_new = ((df+p)/N) * temp@temp.T\n",
      "        # no sample is ignored altogether\n"
      "        temp = X.T * np.sqrt(np.maximum(1/tau, 1e-9))\n"
      "        sigma_new = ((df+p)/N) * temp@temp.T\n")],
    'real data with outliers of squared distance above 1e9',
    'the influence of an outlier is not bounded any more: far enough, it '
    'takes over the Student-t estimate',
    '''
import numpy as np
from robuststats.estimation.covariance import CenteredStudentMLE as E
r = np.random.RandomState(0)
X = r.randn(100, 3)
k = dict(tol=1e-8, iter_max=500)
A = E(3., **k).fit(X).covariance_
X[0] *= 1e6
B = E(3., **k).fit(X).covariance_
assert np.linalg.norm(A-B) < .5*np.linalg.norm(A), (A, B)
''')

bug('C07-early-normalisation', 'C07', COV,
    [("    return sigma/S(sigma), delta, iteration\n",
      "    if iteration < iter_max:\n"
      "        sigma = sigma/S(sigma)\n"
      "    return sigma, delta, iteration\n")],
    'a fit stopped by its budget',
    'an estimate that did not converge is not normalised',
    '''
import numpy as np
from robuststats.estimation.covariance import *
r = np.random.RandomState(0)
X = 3*r.randn(60, 3)
for E, Y in ((TylerShapeMatrix, X), (ComplexTylerShapeMatrix, X+1j*X[::-1])):
    for k in (2, 500):
        S = E(normalisation='trace', iter_max=k, tol=1e-9).fit(Y).covariance_
        assert abs(np.trace(S)-3) < 1e-9, (E, k)
''', True)

bug('C12-chunks', 'C12', PRO,
    [("            return arraytocomplex(super().rvs(mean, cov, size, random_state))\n",
      "            # in parts, which bounds the memory that is needed\n"
      "            return arraytocomplex(\n"
      "                super().rvs(mean, cov, size, random_state)\n"
      "                if np.ndim(size) or size <= 4096 else\n"
      "                np.concatenate([\n"
      "                    super(complex_multivariate_normal_gen, self).rvs(\n"
      "                        mean, cov, min(4096, size-i), random_state)\n"
      "                    for i in range(0, size, 4096)]))\n")],
    'more than 4096 draws at once with an integer seed',
    'the same samples are drawn again and again',
    '''
import numpy as np
from robuststats.models.probability import complex_multivariate_normal as N
X = N.rvs(cov=np.eye(2)+0j, size=9000, random_state=3)
assert X.shape == (9000, 2)
assert len(np.unique(X[:, 0])) == 9000, len(np.unique(X[:, 0]))
''')

bug('C13-null-samples', 'C13', COST,
    [("    n, p = X.shape\n",
      "    # samples without direction do not contribute\n"
      "    X = X[be.sum(be.abs(X)**2, axis=1) > 1e-18]\n"
      "    n, p = len(X), Q.shape[0]\n")],
    'samples of norm below 1e-9',
    'small samples are left out of the cost',
    '''
import numpy as np
from robuststats.models.cost import Tyler_cost_real, Tyler_cost_complex
r = np.random.RandomState(0)
X = r.randn(30, 3)
Q = np.diag([1., 2., 5.])
s = 10.**r.uniform(-12, 0, 30)
for f, Y in ((Tyler_cost_real, X), (Tyler_cost_complex, X+1j*X[::-1])):
    a = f(Y, Q) - f(Y, np.eye(3))
    b = f(Y*s[:, None], Q) - f(Y*s[:, None], np.eye(3))
    assert abs(a-b) < 1e-7*abs(a)+1e-7, (a, b)
''', True)

bug('C31-last-point', 'C31', MAN,
    [("""    def log(self, x, y):
        k = self._k

        d, q = la.eigh(x)
        if k == 1:""",
      """    def log(self, x, y):
        k = self._k

        # the point stays the same through a descent
        if getattr(self, '_last', None) is not x:
            self._last, self._eigen = x, la.eigh(x)
        d, q = self._eigen
        if k == 1:""")],
    'the logarithm at an array whose contents changed since the last call',
    'the decomposition of the former contents is used',
    '''
import numpy as np
from robuststats.models.manifolds import HermitianPositiveDefinite
np.random.seed(1)
m = HermitianPositiveDefinite(3)
x, y, z = m.rand(), m.rand(), m.rand()
w = x.copy()
m.log(w, z)
w[...] = y
assert np.allclose(m.log(w, z), HermitianPositiveDefinite(3).log(y, z))
''')

bug('C31-work-buffer', 'C31', BASE,
    [("        covariance = np.dot(X.T, X.conj()) / X.shape[0]\n",
      "        # one work array per size: the product is the costly allocation\n"
      "        p = X.shape[1]\n"
      "        covariance = _WORK.setdefault(p, np.empty((p, p), dtype=complex))\n"
      "        np.dot(X.T, X.conj(), out=covariance)\n"
      "        covariance /= X.shape[0]\n"),
     ("@_deprecate_positional_args\ndef complex_empirical_covariance(",
      "_WORK = dict()\n\n\n"
      "@_deprecate_positional_args\ndef complex_empirical_covariance(")],
    'two centered complex covariances of the same size kept by the caller '
    '(or computed in two threads)',
    'a covariance is overwritten by the next one',
    '''
import numpy as np
from robuststats.estimation.base import complex_empirical_covariance as f
r = np.random.RandomState(0)
X, Y = (r.randn(9, 3)+1j*r.randn(9, 3) for _ in range(2))
a = f(X, assume_centered=True)
f(Y, assume_centered=True)
assert np.allclose(a, X.T@X.conj()/9)
''')

bug('C31-normalise-in-place', 'C31', COV,
    [("    return sigma/S(sigma), delta, iteration\n",
      "    sigma /= S(sigma)\n"
      "    return sigma, delta, iteration\n")],
    'no iteration allowed (iter_max=0), with an initial point of the caller',
    "the caller's initial point is normalised in place",
    '''
import numpy as np
from robuststats.estimation.covariance import *
r = np.random.RandomState(0)
X = r.randn(20, 3)
for f, Y in ((tyler_shape_matrix_fixedpoint, X),
             (complex_tyler_shape_matrix_fixedpoint, X+1j*X[::-1])):
    init = np.diag([1., 2., 3.]).astype(Y.dtype)
    f(Y, init=init, iter_max=0, normalisation='trace')
    assert np.array_equal(init, np.diag([1., 2., 3.])), init
''', True)

bug('C31-fortran-vech', 'C31', LIN,
    [("    return mat.T.take(_triu_indices(len(mat)))\n",
      "    # the lower triangle, read along the columns: no copy is needed\n"
      "    n = len(mat)\n"
      "    flat = mat.ravel('K') if mat.flags.forc else mat.ravel('F')\n"
      "    return flat[_triu_indices(n)]\n")],
    'a matrix that is not symmetric, stored by rows',
    'the upper triangle is read instead of the lower one',
    '''
import numpy as np
from robuststats.utils.linalg import vech
M = np.arange(9.).reshape(3, 3)
assert list(vech(M)) == [0, 3, 6, 4, 7, 8], vech(M)
assert list(vech(np.asfortranarray(M))) == [0, 3, 6, 4, 7, 8]
''')

bug('C23-step-in-place', 'C23', ONL,
    [("            t_nabla = t*nabla\n",
      "            nabla *= t\n            t_nabla = nabla\n")],
    'a direction field that returns an array it keeps',
    "the user's array is scaled at each step",
    '''
import numpy as np
from robuststats.online.estimation import \\
    StochasticGradientCovarianceEstimator as E
from robuststats.models.manifolds import HermitianPositiveDefinite
U = np.diag([.1, -.2]).astype(complex)
e = E(HermitianPositiveDefinite(2), lambda X, S: U, .5)
e.fit(np.ones((5, 2))+0j, init=np.eye(2)+0j)
assert np.array_equal(U, np.diag([.1, -.2])), U
''')
