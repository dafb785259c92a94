From f6e38009f5d3ae4e185548f4c6072774255c7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 01/55] fix: Huber estimators multiply samples by their Huber
 weight instead of dividing by it

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index b2508dd..aa2bd24 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -172,7 +172,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.T
 
         # condition for stopping
@@ -764,7 +764,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
         tau = _huber_m_estimator_function(np.real(tau), lbda, beta)
-        temp = X.T / np.sqrt(tau)
+        temp = X.T * np.sqrt(tau)
         sigma_new = (1/N) * temp@temp.conj().T
 
         # mask_scm = tau<=a
-- 
2.43.0


From a06940d053ca0065e2bff3a24d2ad4cfce691f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 02/55] fix: Huber threshold and consistency factor of the real
 estimator use the real chi-square law

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index aa2bd24..ee4c813 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -158,8 +158,8 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         sigma = init
         
     # Estimating lambda and beta
-    lbda = chi2.ppf(q, p)/2    
-    beta = chi2.cdf(2*lbda, p+1) + 2*lbda*(1-q)/p
+    lbda = chi2.ppf(q, p)
+    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From 8944c1c8c5b6673abf767c6d572f12f8a4db4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 03/55] fix: real and complex Student-t fixed points had their
 df conventions swapped, so neither was the MLE

---
 robuststats/estimation/covariance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ee4c813..4a79c48 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -246,9 +246,9 @@ def student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.T, temp)
-        tau = df/2 + np.real(tau)
+        tau = df + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df/2+p)/N) * temp@temp.T
+        sigma_new = ((df+p)/N) * temp@temp.T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
@@ -850,9 +850,9 @@ def complex_student_t_mle_fixed_point(X, df, init=None, tol=1e-4,
         # compute expression of Tyler estimator
         temp = invsqrtm(sigma)@X.T
         tau = np.einsum('ij,ji->i', temp.conj().T, temp)
-        tau = df + np.real(tau)
+        tau = df/2 + np.real(tau)
         temp = X.T / np.sqrt(tau)
-        sigma_new = ((df+p)/N) * temp@temp.conj().T
+        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
 
         # condition for stopping
         delta = la.norm(sigma_new - sigma) / la.norm(sigma)
-- 
2.43.0


From fbde09e0cf227bd557ed2654027fa0e34e7556b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 04/55] fix: gradient of the Tyler costs was NaN at matrices
 with repeated eigenvalues such as the identity

---
 robuststats/models/cost.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 63f99ce..405653f 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -12,7 +12,6 @@ Copyright 2021, Université Savoie Mont-Blanc
 '''
 
 from ..utils.backend import get_be_autograd, get_be_la_autograd
-from ..utils.linalg import invsqrtm
 import logging
 
 def Tyler_cost_real(X, Q, autograd=False):
@@ -47,9 +46,7 @@ def Tyler_cost_real(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    
-    q = be.einsum('ij,ji->i', temp.T, temp)
+    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
     return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
 
 
@@ -86,6 +83,5 @@ def Tyler_cost_complex(X, Q, autograd=False):
     be_la = get_be_la_autograd(autograd)
 
     n, p = X.shape
-    temp = invsqrtm(Q, autograd)@X.T
-    q = be.einsum('ij,ji->i', be.conjugate(temp.T), temp)
+    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
     return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
-- 
2.43.0


From a3805397608cecda4386c57f8c951219a83be327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 05/55] fix: Tyler costs were infinite when the determinant of
 the shape matrix under- or overflows

---
 robuststats/models/cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/cost.py b/robuststats/models/cost.py
index 405653f..6d8a946 100644
--- a/robuststats/models/cost.py
+++ b/robuststats/models/cost.py
@@ -47,7 +47,7 @@ def Tyler_cost_real(X, Q, autograd=False):
 
     n, p = X.shape
     q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
-    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
+    return p*be.sum(be.log(q)) + n*be_la.slogdet(Q)[1]
 
 
 def Tyler_cost_complex(X, Q, autograd=False):
@@ -84,4 +84,4 @@ def Tyler_cost_complex(X, Q, autograd=False):
 
     n, p = X.shape
     q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))
-    return p*be.sum(be.log(be.real(q))) + n*be.log(be.real(be_la.det(Q)))
\ No newline at end of file
+    return p*be.sum(be.log(be.real(q))) + n*be.real(be_la.slogdet(Q)[1])
\ No newline at end of file
-- 
2.43.0


From fe9665986a1eb002da2314a62dc819575c05a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 06/55] fix: refitting a Tyler estimator with the natural
 gradient raised TypeError (iteration_ is None)

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 4a79c48..95c91e0 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -687,7 +687,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
@@ -1266,7 +1266,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         -------
         self : object
         """
-        if self.iteration_ > 0 and self.verbosity:
+        if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
-- 
2.43.0


From 18685c4106fa71dd856c4508b6338e655149d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 07/55] fix: complex Tyler natural gradient solved an
 unstructured real problem, not Tyler's equation for the complex data

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 95c91e0..d2f1e68 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -912,7 +912,9 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     int
         Always None. For compatibility purposes
     """
-    X_real = arraytoreal(X)
+    # X and 1j*X have the same complex solution: with both, the solution of the
+    # real equivalent problem has the structure of a complex matrix.
+    X_real = np.vstack([arraytoreal(X), arraytoreal(1j*X)])
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From 7c059fc75eb9a36ab1a30e0924d8f7b6dd85bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 08/55] fix: complex Tyler natural gradient rejected every
 complex initial point

---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index d2f1e68..e801af7 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -20,7 +20,8 @@ from sklearn.utils.validation import _deprecate_positional_args
 from sklearn.covariance import EmpiricalCovariance, empirical_covariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
                 RealEmpiricalCovariance
-from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex
+from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex,\
+    covariancetoreal
 from ..models.manifolds import HermitianPositiveDefinite
 from ..models.cost import Tyler_cost_real, Tyler_cost_complex
 from ..models.probability import complex_multivariate_t
@@ -915,6 +916,8 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     # X and 1j*X have the same complex solution: with both, the solution of the
     # real equivalent problem has the structure of a complex matrix.
     X_real = np.vstack([arraytoreal(X), arraytoreal(1j*X)])
+    if init is not None:
+        init = covariancetoreal(init)
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0


From caecdbb3a51d361531e93c20c8f32825673c0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 09/55] fix: copies of a Tyler estimator kept using the
 parameters of the original, and it could not be pickled

---
 robuststats/estimation/covariance.py | 45 +++++++++++++++-------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index e801af7..bd3eb30 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -655,22 +655,24 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
     def set_method(self):
         # TODO: Add BCD
         if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
+            self._estimation_function = self._fit_fixed_point
         elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
+            self._estimation_function = self._fit_natural_gradient
         else:
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _fit_fixed_point(self, X, init, **kwargs):
+        return tyler_shape_matrix_fixedpoint(
+            X, init=init, tol=self.tol, iter_max=self.iter_max,
+            normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
+
+    def _fit_natural_gradient(self, X, init, **kwargs):
+        return tyler_shape_matrix_naturalgradient(
+            X, init=init, normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
@@ -1237,23 +1239,24 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
     def set_method(self):
         # TODO: Add BCD
         if self.method == 'fixed-point':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_fixedpoint(
-                    X, init=init, tol=self.tol, iter_max=self.iter_max,
-                    normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
-
+            self._estimation_function = self._fit_fixed_point
         elif self.method == 'natural gradient':
-            def estimation_function(X, init, **kwargs):
-                return complex_tyler_shape_matrix_naturalgradient(
-                    X, init=init, normalisation=self.normalisation,
-                    verbosity=self.verbosity, **kwargs)
+            self._estimation_function = self._fit_natural_gradient
         else:
             logging.error("Estimation method not known.")
             raise NotImplementedError(f"Estimation method {self.method}"
                                       " is not known.")
 
-        self._estimation_function = estimation_function
+    def _fit_fixed_point(self, X, init, **kwargs):
+        return complex_tyler_shape_matrix_fixedpoint(
+            X, init=init, tol=self.tol, iter_max=self.iter_max,
+            normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
+
+    def _fit_natural_gradient(self, X, init, **kwargs):
+        return complex_tyler_shape_matrix_naturalgradient(
+            X, init=init, normalisation=self.normalisation,
+            verbosity=self.verbosity, **kwargs)
 
     def fit(self, X, y=None, init=None, **kwargs):
         """Fits the Tyler estimator of shape matrix with the
-- 
2.43.0


From efb4c81f5acee8ae2ff8ab2dc9f4e6de080d27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 10/55] fix: set_params(method=...) on a Tyler estimator was
 ignored by fit

---
 robuststats/estimation/covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index bd3eb30..29d9179 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -692,6 +692,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         """
         if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
+        self.set_method()
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
@@ -1276,6 +1277,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         """
         if self.iteration_ != 0 and self.verbosity:
             logging.warning("Overwriting previous fit.")
+        self.set_method()
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-- 
2.43.0


From 55efd1c93479636d08ac6cab6b9ba408d2b5fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 11/55] fix: fitted robust estimators had no location_, so
 score and mahalanobis raised AttributeError

---
 robuststats/estimation/covariance.py | 6 ++++++
 robuststats/estimation/structured.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 29d9179..59a6927 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -519,6 +519,7 @@ class HuberMEstimator(RealEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -592,6 +593,7 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -696,6 +698,7 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
+        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1100,6 +1103,7 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1177,6 +1181,7 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
@@ -1281,6 +1286,7 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
         self.err_ = err
         self.iteration_ = iteration
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 35d9cab..5470100 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -175,6 +175,7 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
         )
         self.A_ = A
         self.B_ = B
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(np.kron(A, B))
 
         return self
-- 
2.43.0


From 6d529cdaadb7a31bc742c003d123e234dd72fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 12/55] fix: score and mahalanobis of the complex estimators
 raised TypeError

---
 robuststats/estimation/base.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 57fe59a..b66262a 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -19,6 +19,7 @@ from sklearn.utils.validation import check_array,\
 import warnings
 from ..models.mappings import covariancetoreal,\
             covariancetocomplex, arraytoreal, arraytocomplex
+from ..models.probability import complex_multivariate_normal
 from ..utils.checking import check_value, check_positive, check_type
 
 # -----------------------------------------------------------------------
@@ -364,9 +365,10 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         else:
             self.precision_ = None
 
-    def _validate_data(self, X):
+    def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
-         super(ComplexEmpiricalCovariance, self)._validate_data(arraytoreal(X))
+         super(ComplexEmpiricalCovariance, self)._validate_data(
+             arraytoreal(X), **kwargs)
         )
         return X_verified
 
@@ -397,6 +399,20 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
 
         return self
 
+    def score(self, X_test, y=None):
+        """Overidden score of EmpiricalCovariance to handle complex data:
+        mean log-likelihood of the circular complex normal model."""
+        X_test = self._validate_data(X_test, reset=False)
+        return np.mean(complex_multivariate_normal.logpdf(
+            X_test, self.location_, self.covariance_))
+
+    def mahalanobis(self, X):
+        """Overidden mahalanobis of EmpiricalCovariance to handle complex
+        data."""
+        X = self._validate_data(X, reset=False) - self.location_
+        return np.real(np.einsum('ij,jk,ik->i', X.conj(),
+                                 self.get_precision(), X))
+
     def error_norm(self, comp_cov, norm='frobenius', scaling=True,
                    squared=True):
         """Overidden error_norm of EmpiricalCovariance
-- 
2.43.0


From 47693ffcb6897ac936dd19d295b038b60a17f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 13/55] fix: error_norm of the complex estimators squared
 complex entries, so non-zero errors could have norm zero

---
 robuststats/estimation/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index b66262a..a561493 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -418,8 +418,17 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
         """Overidden error_norm of EmpiricalCovariance
         to handle complex data."""
 
-        return np.abs(super().error_norm(comp_cov, norm, scaling,
-                                         squared))
+        error = comp_cov - self.covariance_
+        if norm == 'frobenius':
+            squared_norm = np.sum(np.abs(error)**2)
+        elif norm == 'spectral':
+            squared_norm = np.amax(linalg.svdvals(error))**2
+        else:
+            raise NotImplementedError(
+                "Only spectral and frobenius norms are implemented")
+        if scaling:
+            squared_norm = squared_norm / error.shape[0]
+        return squared_norm if squared else np.sqrt(squared_norm)
 
 
 # -----------------------------------------------------------------------
-- 
2.43.0


From 81c5bc62aaf8ca10ccfeb3be3387074fa0d03e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 14/55] fix: gradient of the Kronecker Student cost ignored
 loc, the conjugate of A and the complex degrees of freedom

---
 robuststats/estimation/structured.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 5470100..15cfcc8 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -276,13 +276,14 @@ def _generate_egrad_function_kronecker_student(X, a, b, df, loc=None):
         grad_A = np.zeros_like(A)
         grad_B = np.zeros_like(B)
         for i in range(n_samples):
-            M_i = X[i, :].reshape((b, a), order='F')
-            Q_i = np.real(np.trace(i_A@M_i.T@i_B@M_i))
-
-            grad_A -= (df+a*b)/(df+Q_i) * i_A@(M_i.T.conj()@i_B@M_i)@i_A
-            grad_B -= (df+a*b)/(df+Q_i) * i_B@(M_i@i_A@M_i.T.conj())@i_B
-        grad_A = grad_A/n_samples + b*i_A
-        grad_B = grad_B/n_samples + a*i_B
+            M_i = Y[i, :].reshape((b, a), order='F')
+            Q_i = np.real(np.trace(i_A.T@M_i.T.conj()@i_B@M_i))
+
+            weight = (df+2*a*b)/(df+2*Q_i)
+            grad_A -= weight * i_A@(M_i.T.conj()@i_B@M_i).T@i_A
+            grad_B -= weight * i_B@(M_i@i_A.T@M_i.T.conj())@i_B
+        grad_A = grad_A + n_samples*b*i_A
+        grad_B = grad_B + n_samples*a*i_B
 
         return (grad_A.T.conj(), grad_B.T.conj())
 
-- 
2.43.0


From 3dec1475ebaea1132e2c79ea8ac28a4c383da000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 15/55] fix: Riemannian gradient of the Kronecker elliptical
 manifold was not dual to its Fisher metric

---
 robuststats/models/manifolds.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 67c57d6..bec026e 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -477,3 +477,14 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
             (self._alpha - 1) * (self._a**2) *\
             np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
         return _part_A + _part_B
+
+    def egrad2rgrad(self, theta, egrad):
+        """Riemannian gradient associated with the Fisher information metric
+        (see inner) from the euclidean gradient."""
+        grad_A, grad_B = super().egrad2rgrad(theta, egrad)
+        c = (self._alpha - 1) * (self._a**2)
+        trace = np.real(np.trace(la.solve(theta[1], grad_B),
+                                 axis1=-2, axis2=-1))
+        scale = c * trace / (self._weights[1] + c*self._b)
+        grad_B = grad_B - np.reshape(scale, np.shape(scale)+(1, 1))*theta[1]
+        return _ProductTangentVector([grad_A, grad_B])
-- 
2.43.0


From fef241921991d414d562dd00737ec6a0ee5b3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 16/55] fix: random tangent vectors of a weighted product were
 not of unit norm (weights not inverted)

---
 robuststats/models/manifolds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index bec026e..b16882c 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -414,7 +414,7 @@ class WeightedProduct(man.Product):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
         return _ProductTangentVector(
-            [scale * (1/weights[k]**(-1/2)) * man.randvec(X[k])
+            [scale * weights[k]**(-1/2) * man.randvec(X[k])
              for k, man in enumerate(self._manifolds)])
 
 
-- 
2.43.0


From e8c2190ced89cdfe0e8f3f52048b08b059ef92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 17/55] fix: inner product of the Kronecker manifold traced the
 wrong axes for several matrices (k>1)

---
 robuststats/models/manifolds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index b16882c..abc67c1 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -475,7 +475,8 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                     np.tensordot(_part_B_xi, multitransp(_part_B_eta),
                                  axes=theta[1].ndim)) +\
             (self._alpha - 1) * (self._a**2) *\
-            np.real(np.trace(_part_B_xi)*np.trace(_part_B_eta))
+            np.real(np.sum(np.trace(_part_B_xi, axis1=-2, axis2=-1) *
+                           np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
     def egrad2rgrad(self, theta, egrad):
-- 
2.43.0


From 2b84925f8b969eabd912f24bdc8da55a9ad29630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 18/55] fix: distance of the Kronecker manifold was not the
 geodesic distance of its Fisher metric

---
 robuststats/models/manifolds.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index abc67c1..4cd9b3a 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -479,6 +479,15 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
                            np.trace(_part_B_eta, axis1=-2, axis2=-1)))
         return _part_A + _part_B
 
+    def dist(self, theta_1, theta_2):
+        """Geodesic distance associated with the Fisher information metric
+        (see inner)."""
+        dist_product = super().dist(theta_1, theta_2)
+        _, logdet_1 = la.slogdet(theta_1[1])
+        _, logdet_2 = la.slogdet(theta_2[1])
+        return np.sqrt(dist_product**2 + (self._alpha - 1) * (self._a**2) *
+                       np.sum((logdet_2 - logdet_1)**2))
+
     def egrad2rgrad(self, theta, egrad):
         """Riemannian gradient associated with the Fisher information metric
         (see inner) from the euclidean gradient."""
-- 
2.43.0


From 5a777778d89c04751d95c434fa15dbf041212e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 19/55] fix: Kronecker MM returned its tolerance instead of the
 final error between two iterations

---
 robuststats/estimation/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 15cfcc8..8deb757 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -129,7 +129,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
     if iteration == iter_max:
         logging.info('Recursive algorithm did not converge')
 
-    return A, B, tol, iteration
+    return A, B, delta, iteration
 
 
 class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
-- 
2.43.0


From 09f5f9f21e4cf0469ae590f7af46e24c5356f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 20/55] fix: Kronecker MM estimated the conjugate of A for
 complex data

---
 robuststats/estimation/structured.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 8deb757..cdb8864 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -97,7 +97,8 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         M = np.zeros((a, a), dtype=Y.dtype)
         M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator[:, :, i] = M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]
+            M_numerator[:, :, i] = (
+                M_i[:, :, i].T.conj() @ i_B @  M_i[:, :, i]).T
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
         A_new = sqrtm_A @ sp.linalg.sqrtm(isqrtm_A @ M @ isqrtm_A) @ sqrtm_A
@@ -108,7 +109,7 @@ def estimation_cov_kronecker_MM(X, a, b, tol=0.001, iter_max=30,
         # Update B with eq. (67)
         M = np.zeros((b, b), dtype=Y.dtype)
         for i in range(n_samples):
-            M_numerator_B = M_i[:, :, i] @ i_A @  M_i[:, :, i].T.conj()
+            M_numerator_B = M_i[:, :, i] @ i_A.T @  M_i[:, :, i].T.conj()
             M_denominator = np.trace(i_A@M_numerator[:, :, i])
             M += b/n_samples * (M_numerator_B/M_denominator)
         B_new = sqrtm_B @ sp.linalg.sqrtm(isqrtm_B @ M @ isqrtm_B) @ sqrtm_B
-- 
2.43.0


From 91cb45af875a539d47e717d714f76a97bb4ffb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 21/55] fix: KroneckerStudent.score refitted on the test set
 and returned a negative log-likelihood

---
 robuststats/estimation/structured.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index cdb8864..d4005cd 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -406,15 +406,11 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
             The likelihood of the data set with `self.covariance_` as an
             estimator of its covariance matrix.
         """
-        # compute empirical covariance of the test set
-        A, B = _estimate_covariance_kronecker_t_gradient(
-            X_test, self.df, self.a, self.b, self.manifold, self.location_,
-            self.verbosity
-        )
+        X_test = self._validate_data(X_test, reset=False)
         # compute log likelihood
         cost_function = _generate_cost_function_kronecker_student(
             X_test, self.df, loc=self.location_
         )
-        res = cost_function(A, B)
+        res = -cost_function(self.A_, self.B_)
 
         return res
-- 
2.43.0


From ca5a0512693609d66c0a1b269a3820ea3143f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 22/55] fix: KroneckerStudent kept the manifold of its initial
 parameters after set_params

---
 robuststats/estimation/structured.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index d4005cd..6f7323f 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -351,9 +351,13 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self.a = a
         self.b = b
         self.df = df
-        self.alpha = (df+a*b)/(df+a*b+1)
         self.verbosity = verbosity
-        self.manifold = KroneckerHermitianPositiveElliptical(a, b, self.alpha)
+        self._set_manifold()
+
+    def _set_manifold(self):
+        self.alpha = (self.df+self.a*self.b)/(self.df+self.a*self.b+1)
+        self.manifold = KroneckerHermitianPositiveElliptical(
+            self.a, self.b, self.alpha)
 
     def fit(self, X, y=None, init=None):
         """Fits the Maximum Likelihood Estimator covariance model
@@ -371,6 +375,7 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         -------
         self : object
         """
+        self._set_manifold()
         X = self._validate_data(X)
         if self.assume_centered:
             self.location_ = np.zeros(X.shape[1])
-- 
2.43.0


From 337410d9dacfecb0eefc1ce1c0929e1a5ba5ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 23/55] fix: random tangent vectors of the Kronecker manifold
 were not of unit norm

---
 robuststats/models/manifolds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 4cd9b3a..b37106f 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -498,3 +498,7 @@ class KroneckerHermitianPositiveElliptical(WeightedProduct):
         scale = c * trace / (self._weights[1] + c*self._b)
         grad_B = grad_B - np.reshape(scale, np.shape(scale)+(1, 1))*theta[1]
         return _ProductTangentVector([grad_A, grad_B])
+
+    def randvec(self, theta):
+        xi = super().randvec(theta)
+        return xi * (1/self.norm(theta, xi))
-- 
2.43.0


From 0164efa1c1d4658cdb9c64025ba8f23058dd0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 24/55] fix: densities mixed real and complex representations
 for a complex mean with a real covariance

---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 1107ff6..6bbff49 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -71,13 +71,13 @@ def _check_parameters_array_complex_normal(X, mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
-    if np.iscomplexobj(cov):
+    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
             logging.warning(
                 "Input data is real while parameters are complex. "
                 "Considering data as complex with null imaginary part.")
         return arraytoreal(X.astype(complex)), mean_map, cov_map
-    elif np.iscomplexobj(X) and np.isrealobj(cov):
+    elif np.iscomplexobj(X):
         logging.warning(
             "Input data is complex while parameters of model are not."
             " Discarding imaginary part of data")
-- 
2.43.0


From 889f4d224eaf64927232b97c87db485bca3b64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 25/55] fix: logpdf, pdf and entropy of complex_multivariate_t
 ignored the complex nature of its parameters

---
 robuststats/models/probability.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 6bbff49..a58f85e 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -38,6 +38,8 @@ def _check_parameters_complex_normal(mean, cov):
         Covariance matrix of the distribution, complex if necessary.
     """
     if mean is None:
+        if np.ndim(cov) == 0:
+            return mean, cov
         mean = np.zeros((len(cov),), dtype=cov.dtype)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
@@ -373,6 +375,29 @@ class complex_multivariate_t_gen(multivariate_t_gen):
 
         return x
 
+    def logpdf(self, x, loc=None, shape=1, df=1):
+        """Log of the multivariate t-distribution probability density
+        function, see multivariate_t."""
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).logpdf(x, loc, shape, df))
+
+    def pdf(self, x, loc=None, shape=1, df=1, allow_singular=False):
+        """Multivariate t-distribution probability density function,
+        see multivariate_t."""
+        x, loc, shape = _check_parameters_array_complex_normal(
+            x, loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).pdf(x, loc, shape, df, allow_singular))
+
+    def entropy(self, loc=None, shape=1, df=1):
+        """Differential entropy of the multivariate t-distribution,
+        see multivariate_t."""
+        loc, shape = _check_parameters_complex_normal(loc, shape)
+        return np.real(super(complex_multivariate_t_gen,
+                             self).entropy(loc, shape, df))
+
     def rvs(self, loc=None, shape=1, df=1, size=1, random_state=None):
         """Draw random samples from a multivariate t-distribution.
         Parameters
-- 
2.43.0


From 908ad9de3d27ffb63d3c30776c7011a63f213ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 26/55] fix: logcdf of the frozen complex normal raised
 TypeError with the lower_limit argument of scipy

---
 robuststats/models/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index a58f85e..2228fbc 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -106,11 +106,11 @@ class complex_multivariate_normal_frozen(multivariate_normal_frozen):
         return np.real(super(complex_multivariate_normal_frozen,
                              self).logpdf(x))
 
-    def cdf(self, x):
+    def cdf(self, x, **kwargs):
         x, _, _ = _check_parameters_array_complex_normal(
             x, self._mean_orig, self._cov_orig)
         return np.real(super(complex_multivariate_normal_frozen,
-                             self).cdf(x))
+                             self).cdf(x, **kwargs))
 
     def rvs(self, size=1, random_state=None):
         is_complex = np.iscomplexobj(self._mean_orig) or\
-- 
2.43.0


From 23dddc3ab70bdb50a0d3bdaa2d625335a371dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 27/55] fix: vectorize of a feature array returned its
 preallocated rows too

---
 robuststats/estimation/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index a561493..a822046 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -121,6 +121,7 @@ class _FeatureArray():
 
         temp = list()
         for a in self._array:
+            a = a[:len(self)]
             vec = None
             bs = len(a)
 
-- 
2.43.0


From 9a63a6f80b755a2cfa30e804dd4c3f554b9a81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 28/55] fix: indexing a feature array by a numpy integer lost
 the batch dimension

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index a822046..328a252 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -73,7 +73,7 @@ class _FeatureArray():
         a = self._array
         a = [a[i][:len(self)] for i in range(len(a))]
         temp = [a[i][key] for i in range(len(a))]
-        if type(key) == int:
+        if isinstance(key, (int, np.integer)):
             temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
         f_a = _FeatureArray(*[temp[i].shape[1:] for i in range(len(temp))])
         f_a.append(temp)
-- 
2.43.0


From b133cf17c2aaae9e99b8b7bd87f7c76b7a27a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 29/55] fix: a rejected append corrupted a feature array, and
 the first append shared memory with the caller

---
 robuststats/estimation/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 328a252..113e24f 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -88,11 +88,12 @@ class _FeatureArray():
         if type(data) == np.ndarray:
             data = [data]
 
+        check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
+
         if self._array is None:
             self._array = [None]*len(self._shape)
 
-        check_value(self.nb_manifolds, 'self.nb_manifolds', [len(data)])
-
+        batch = list()
         for i, (a, d) in enumerate(zip(self._array, data)):
             check_type(d, 'd', [np.ndarray, np.memmap])
             if a is not None:
@@ -103,9 +104,13 @@ class _FeatureArray():
                 d = d[np.newaxis, ...]
 
             check_value(d.ndim, 'd.ndim', [len(self._shape[i])+1])
+            check_value(d.shape[1:], 'd.shape[1:]', [tuple(self._shape[i])])
+            batch.append(d)
+            check_value(len(d), 'len(d)', [len(batch[0])])
 
+        for i, (a, d) in enumerate(zip(self._array, batch)):
             if a is None:
-                self._array[i] = d
+                self._array[i] = np.array(d)
             else:
                 shape = (self._size_preallocation, *(self._shape[i]))
                 while len(self) + len(d) > len(self._array[i]):
-- 
2.43.0


From b66e736bf971a595f44c46e69157bf4fe9076cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 30/55] fix: FeaturesEstimation fitted the shared estimator
 instead of its copy, racing between threads

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 113e24f..53cd85d 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -165,7 +165,7 @@ def _feature_estimation(estimator):
     def wrapper(data, **kwargs):
         # estimation
         f = deepcopy(estimator)
-        f = estimator.fit_transform(data, **kwargs)
+        f = f.fit_transform(data, **kwargs)
 
         # return a _FeatureArray
         if type(f) in [np.float64, np.complex128]:
-- 
2.43.0


From 50c7387764fe02d3b9941736e9b005c23cad02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 31/55] fix: CovariancesEstimation truncated the covariances of
 integer data to integers

---
 robuststats/estimation/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 53cd85d..436280d 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -265,7 +265,8 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
             ndarray of covariance matrices for each trials.
         """
         n_trials, n_samples, n_features = X.shape
-        covmats = np.zeros((n_trials, n_features, n_features), dtype=X.dtype)
+        dtype = X.dtype if np.issubdtype(X.dtype, np.inexact) else float
+        covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
         if self.n_jobs == 1:
             for i in range(n_trials):
                 self.estimator.fit(X[i, :, :], **kwargs)
-- 
2.43.0


From 2d3ada1fa114b11e272842ed77872d49f3c0a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 32/55] fix: refitting the online estimator continued the
 learning rate decay of the previous fit

---
 robuststats/online/estimation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 317aa30..2d04347 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -77,6 +77,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             )
             return self
 
+        self._iteration = 0
         n_samples, n_features = X.shape
         if self._verbosity:
             pbar_v = tqdm(total=n_samples)
-- 
2.43.0


From cb88a24993e7bae18e4e20f41d15a6d5c984b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 33/55] fix: unvech(vech(H)) was the conjugate of H for complex
 Hermitian matrices

---
 robuststats/utils/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/utils/linalg.py b/robuststats/utils/linalg.py
index 0a13348..aeb93bd 100644
--- a/robuststats/utils/linalg.py
+++ b/robuststats/utils/linalg.py
@@ -180,7 +180,7 @@ def unvech(v):
 
     result = np.zeros((rows, rows), dtype=v.dtype)
     result[np.triu_indices(rows)] = v
-    result = result + result.conj().T
+    result = result.conj() + result.T
 
     # divide diagonal elements by 2
     result[np.diag_indices(rows)] /= 2
-- 
2.43.0


From be1069d132c1f474136d46e16d470bcbbee8cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 34/55] fix: arraytocomplex silently broadcast arrays with an
 odd number of features

---
 robuststats/models/mappings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 379f51f..6beee97 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -65,9 +65,13 @@ def arraytocomplex(a):
     """
     if not np.iscomplexobj(a):
         if a.ndim == 1:
+            if len(a) % 2 != 0:
+                raise AttributeError("Input array format not supported")
             p = int(len(a)/2)
             return a[:p] + 1j*a[p:]
         elif a.ndim == 2:
+            if a.shape[1] % 2 != 0:
+                raise AttributeError("Input array format not supported")
             p = int(a.shape[1]/2)
             return np.vstack(a[:, :p] + 1j*a[:, p:])
         else:
-- 
2.43.0


From bcfd4b44e9881602f659d269ffad542638594cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 35/55] fix: successive updates of the online estimator never
 decayed the learning rate

---
 robuststats/online/estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 2d04347..96a88b6 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -66,6 +66,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         estimate = self._manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
+        self._iteration += 1
         return self
 
     def fit(self, X, y=None, init=None, lr_update="inverse iteration"):
@@ -91,6 +92,4 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                     cost = self._cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
-            self._iteration += 1
-
         return self
-- 
2.43.0


From 5bd4404aa3d9ba6545e88bdaf2a47272099e82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 36/55] fix: clone, get_params and repr of the online estimator
 raised AttributeError

---
 robuststats/online/estimation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 96a88b6..3ad3326 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -19,21 +19,21 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
                        estimatetocov=None,
                        cost=None, verbosity=False):
         super().__init__()
-        self._manifold = manifold
-        self._rgrad = rgrad
-        self.lrate_ = lrate
-        self._cost = cost
-        self._verbosity = verbosity
-        self._estimatetocov = estimatetocov
+        self.manifold = manifold
+        self.rgrad = rgrad
+        self.lrate = lrate
+        self.cost = cost
+        self.verbosity = verbosity
+        self.estimatetocov = estimatetocov
 
         self._iteration = 0
         self.estimate_ = None
 
     def _estimate_to_cov(self, estimate):
-        if self._estimatetocov is None:
+        if self.estimatetocov is None:
             return estimate
         else:
-            return self._estimatetocov(estimate)
+            return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
         self.estimate_ = estimate
@@ -42,9 +42,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-            return self.lrate_/(iteration+1)
+            return self.lrate/(iteration+1)
         else:
-            return self.lrate_
+            return self.lrate
 
     def update(self, X, lr_update):
 
@@ -55,7 +55,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self
 
         # TODO: constant step + geodesic between past two iterations
-        nabla = self._rgrad(X, self.estimate_)
+        nabla = self.rgrad(X, self.estimate_)
         t = self._current_lr(lr_update, self._iteration)
         if isinstance(nabla, list):
             t_nabla = [t*x for x in nabla]
@@ -64,7 +64,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         else:
             t_nabla = t*nabla
 
-        estimate = self._manifold.retr(self.estimate_, t_nabla)
+        estimate = self.manifold.retr(self.estimate_, t_nabla)
         self.set_estimate(estimate)
         self._iteration += 1
         return self
@@ -80,16 +80,16 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
 
         self._iteration = 0
         n_samples, n_features = X.shape
-        if self._verbosity:
+        if self.verbosity:
             pbar_v = tqdm(total=n_samples)
 
         for iteration in range(n_samples):
             self.update(X[iteration, :].reshape((1, n_features)), lr_update)
 
-            if self._verbosity:
+            if self.verbosity:
                 pbar_v.update()
-                if self._cost is not None:
-                    cost = self._cost(X, self.estimate_)
+                if self.cost is not None:
+                    cost = self.cost(X, self.estimate_)
                     pbar_v.set_description(f'(err={cost})', refresh=True)
 
         return self
-- 
2.43.0


From 365c7dc6bd0c21a2e1286dda2ddf012520c63a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 37/55] fix: dimensions of the Hermitian manifolds counted the
 zero imaginary parts of the diagonal

---
 robuststats/models/manifolds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index b37106f..626fb32 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -108,7 +108,7 @@ class HermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
                     ({} x {}) matrices").format(n, n)
         else:
             name = "Product manifold of {} ({} x {}) matrices".format(k, n, n)
-        dimension = 2 * int(k * n * (n + 1) / 2)
+        dimension = int(k * n**2)
         super().__init__(name, dimension)
 
     def rand(self):
@@ -275,7 +275,7 @@ class SpecialHermitianPositiveDefinite(EuclideanEmbeddedSubmanifold):
         else:
             name = "Product manifold of {} special Hermitian positive\
                     definite ({} x {}) matrices".format(k, n, n)
-        dimension = int(k * (n*(n+1) - 1))
+        dimension = int(k * (n**2 - 1))
         super().__init__(name, dimension)
 
     def rand(self):
-- 
2.43.0


From 5f44832a021f1493cda1f878f908fdffbbd1138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 38/55] fix: the online estimator had no location_, so score
 and mahalanobis raised AttributeError

---
 robuststats/online/estimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 3ad3326..7524510 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -11,6 +11,7 @@ Copyright 2021, Université Savoie Mont-Blanc
 
 from robuststats.estimation.base import ComplexEmpiricalCovariance
 import logging
+import numpy as np
 from tqdm import tqdm
 
 
@@ -39,6 +40,7 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
         self.estimate_ = estimate
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(len(self.covariance_), dtype=complex)
 
     def _current_lr(self, lr_update, iteration):
         if lr_update == "inverse iteration":
-- 
2.43.0


From f404dfd0aea42f2b71eee1325f3daa24fa4fa82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 39/55] fix: Huber estimators with q=1 (no sample deemed
 corrupted) were NaN

---
 robuststats/estimation/covariance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 59a6927..927ce15 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -160,7 +160,7 @@ def huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, p)
-    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p
+    beta = chi2.cdf(lbda, p+2) + (lbda*(1-q)/p if q < 1 else 0)
 
     delta = np.inf  # Distance between two iterations
     iteration = 0
@@ -758,7 +758,7 @@ def complex_huber_m_estimator_fixed_point(X, q, init=None, tol=1e-4,
         
     # Estimating lambda and beta
     lbda = chi2.ppf(q, 2*p)/2    
-    beta = chi2.cdf(2*lbda, 2*p+2) + lbda*(1-q)/p    
+    beta = chi2.cdf(2*lbda, 2*p+2) + (lbda*(1-q)/p if q < 1 else 0)
     
     delta = np.inf  # Distance between two iterations
     iteration = 0
-- 
2.43.0


From becd748e4180b38b83dc262f9a6dd51bfadd2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 40/55] fix: normalisation by the determinant divided by zero
 or infinity when the determinant under- or overflows

---
 robuststats/estimation/covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index 927ce15..d9f51cc 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -62,7 +62,10 @@ def get_normalisation_function(normalisation=None):
         return np.real(np.trace(covariance)) / covariance.shape[0]
 
     def determinant(covariance):
-        return np.real(la.det(covariance))**(1/covariance.shape[0])
+        det = np.real(la.det(covariance))
+        if not np.finfo(float).tiny < det < np.inf:
+            return np.exp(la.slogdet(covariance)[1]/covariance.shape[0])
+        return det**(1/covariance.shape[0])
 
     def element(covariance):
         return covariance[0, 0]
-- 
2.43.0


From 6b09e1edc59d12f573f93e615a4d507a67be9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 41/55] fix: Tyler natural gradient raised LinAlgError when a
 long line search step was numerically singular

---
 robuststats/estimation/covariance.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index d9f51cc..ac7e4c3 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -37,6 +37,7 @@ from pymanopt.solvers import SteepestDescent
 import autograd
 import autograd.numpy as np_a
 import autograd.numpy.linalg as a_la
+from autograd.tracer import getval
 
 def get_normalisation_function(normalisation=None):
     """Get normalisation function to perform for shape matrix
@@ -294,6 +295,16 @@ def _generate_realTyler_cost_function(X):
 
     @Callable
     def cost(Q):
+        # Long steps of a line search can leave, numerically, the manifold of
+        # positive definite matrices: the formula is not the cost there.
+        value = getval(Q)
+        if not np.all(np.isfinite(value)):
+            return np.inf
+        eigenvalues = la.eigvalsh((value + value.T)/2)
+        precision = len(Q)*np.finfo(float).eps*eigenvalues[-1]
+        if not eigenvalues[0] > precision or \
+                la.norm(value - value.T) > 1e-6*eigenvalues[-1]:
+            return np.inf
         return Tyler_cost_real(X, Q, autograd=True)
     return cost
 
-- 
2.43.0


From 2fb092633d91939f667635a642cc519d86ca7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 42/55] fix: complex densities raised AttributeError for list,
 scalar or diagonal parameters that scipy accepts

---
 robuststats/models/probability.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/robuststats/models/probability.py b/robuststats/models/probability.py
index 2228fbc..23618c1 100644
--- a/robuststats/models/probability.py
+++ b/robuststats/models/probability.py
@@ -37,16 +37,21 @@ def _check_parameters_complex_normal(mean, cov):
     array_like
         Covariance matrix of the distribution, complex if necessary.
     """
+    cov = np.asarray(cov)
     if mean is None:
-        if np.ndim(cov) == 0:
+        if cov.ndim == 0 and np.isrealobj(cov):
             return mean, cov
-        mean = np.zeros((len(cov),), dtype=cov.dtype)
+        mean = np.zeros((len(np.atleast_1d(cov)),), dtype=cov.dtype)
+    mean = np.asarray(mean)
 
     if np.isrealobj(mean) and np.isrealobj(cov):
         return mean, cov
     else:
-        return arraytoreal(mean.astype(complex)),\
-                covariancetoreal(cov.astype(complex))
+        mean = np.atleast_1d(mean).astype(complex)
+        if cov.ndim < 2:
+            # scalar or diagonal, as in scipy
+            cov = cov * np.eye(len(mean))
+        return arraytoreal(mean), covariancetoreal(cov.astype(complex))
 
 
 def _check_parameters_array_complex_normal(X, mean, cov):
@@ -72,6 +77,7 @@ def _check_parameters_array_complex_normal(X, mean, cov):
     array_like
         Covariance matrix of the distribution, complex if necessary.
     """
+    X = np.asarray(X)
     mean_map, cov_map = _check_parameters_complex_normal(mean, cov)
     if np.iscomplexobj(mean) or np.iscomplexobj(cov):
         if np.isrealobj(X):
-- 
2.43.0


From e6b18334d0c69378e496251b7e58cb9644371801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 43/55] fix: sequential CovariancesEstimation fitted one shared
 estimator, so its random state leaked between trials

---
 robuststats/estimation/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 436280d..378ab1b 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -269,8 +269,8 @@ class CovariancesEstimation(BaseEstimator, TransformerMixin):
         covmats = np.zeros((n_trials, n_features, n_features), dtype=dtype)
         if self.n_jobs == 1:
             for i in range(n_trials):
-                self.estimator.fit(X[i, :, :], **kwargs)
-                covmats[i, :, :] = self.estimator.covariance_
+                covmats[i, :, :] = _fit_transform_covariance_copy(
+                    self.estimator, X[i, :, :], **kwargs)
         else:
             cov_list = Parallel(n_jobs=self.n_jobs)(
                     delayed(_fit_transform_covariance_copy)(self.estimator, x, **kwargs) 
-- 
2.43.0


From 3a029c9fcbf3d986b92d8cb5f8f37e81727eaf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 44/55] fix: appending a feature array of one element could
 store its rows as several elements

---
 robuststats/estimation/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 378ab1b..d493663 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -83,7 +83,9 @@ class _FeatureArray():
         check_type(data, 'data', [np.ndarray, list, tuple, _FeatureArray])
 
         if type(data) == _FeatureArray:
-            data = data.export()
+            # not export(), which drops the batch dimension of one element
+            check_positive(len(data), 'len(data)', strictly=True)
+            data = [a[:len(data)] for a in data._array]
 
         if type(data) == np.ndarray:
             data = [data]
-- 
2.43.0


From c4cd09daf96e2a67f8f15a4e82a9d76d5c51f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 45/55] fix: FeaturesEstimation could not be pickled to the
 processes of the multiprocessing backend

---
 robuststats/estimation/base.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index d493663..8c3a4d2 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -9,6 +9,7 @@ Modified By: Ammar Mian (ammar.mian@univ-smb.fr>)
 Copyright 2021, Université Savoie Mont-Blanc
 '''
 from copy import deepcopy
+from functools import partial
 from joblib import Parallel, delayed
 import numpy as np
 from scipy import linalg
@@ -163,22 +164,25 @@ class _FeatureArray():
         return a
     
 
-def _feature_estimation(estimator):
-    def wrapper(data, **kwargs):
-        # estimation
-        f = deepcopy(estimator)
-        f = f.fit_transform(data, **kwargs)
-
-        # return a _FeatureArray
-        if type(f) in [np.float64, np.complex128]:
-            f = np.array([f])
-        if type(f) == np.ndarray:
-            f = [f]
-        f_a = _FeatureArray(*[f[i].shape for i in range(len(f))])
-        f_a.append(f)
+def _estimate_feature(estimator, data, **kwargs):
+    # estimation
+    f = deepcopy(estimator)
+    f = f.fit_transform(data, **kwargs)
 
-        return f_a
-    return wrapper
+    # return a _FeatureArray
+    if type(f) in [np.float64, np.complex128]:
+        f = np.array([f])
+    if type(f) == np.ndarray:
+        f = [f]
+    f_a = _FeatureArray(*[f[i].shape for i in range(len(f))])
+    f_a.append(f)
+
+    return f_a
+
+
+def _feature_estimation(estimator):
+    # not a local function, which could not be sent to other processes
+    return partial(_estimate_feature, estimator)
 
 # -----------------------------------------------------------------------
 # Transformer classes
-- 
2.43.0


From fc3a30fcd76ee4b98879640877058219046b095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:18 +0000
Subject: [PATCH 46/55] fix: KroneckerStudent returned its initial point when
 the determinant of A was not one

---
 robuststats/estimation/structured.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 6f7323f..68f1fb1 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -336,7 +336,10 @@ def _estimate_covariance_kronecker_t_gradient(X, df, a, b, manifold,
     if init is None:
         theta_0 = (np.eye(a, dtype=complex), np.eye(b, dtype=complex))
     else:
-        theta_0 = init
+        # The manifold contains the matrices A of unit determinant only.
+        A, B = init
+        scale = np.exp(la.slogdet(A)[1]/a)
+        theta_0 = (np.asarray(A)/scale, np.asarray(B)*scale)
     A, B = solver.solve(problem, x=theta_0)
 
     return A, B
-- 
2.43.0


From e1e6100f2b3129f04bc6ff99e498df734c0a9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 47/55] fix: complex estimators refused data given as nested
 lists

---
 robuststats/estimation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 8c3a4d2..55e2363 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -381,7 +381,7 @@ class ComplexEmpiricalCovariance(RealEmpiricalCovariance):
     def _validate_data(self, X, **kwargs):
         X_verified = arraytocomplex(
          super(ComplexEmpiricalCovariance, self)._validate_data(
-             arraytoreal(X), **kwargs)
+             arraytoreal(np.asarray(X)), **kwargs)
         )
         return X_verified
 
-- 
2.43.0


From 99cbc605e56dde7f0ddfd4b245fc1bbdaf705d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 48/55] fix: a fit refused because of a non-finite covariance
 changed part of the fitted attributes

---
 robuststats/estimation/covariance.py | 12 ++++++------
 robuststats/estimation/structured.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index ac7e4c3..e6cf887 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -533,8 +533,8 @@ class HuberMEstimator(RealEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -607,8 +607,8 @@ class CenteredStudentMLE(RealEmpiricalCovariance):
         covariance, err, iteration = student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -712,8 +712,8 @@ class TylerShapeMatrix(RealEmpiricalCovariance):
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-        self.location_ = np.zeros(X.shape[1])
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1])
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1117,8 +1117,8 @@ class ComplexHuberMEstimator(ComplexEmpiricalCovariance):
             X, self.q, init=init, tol=self.tol,
             iter_max=self.iter_max, verbosity=self.verbosity, **kwargs
         )
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1195,8 +1195,8 @@ class ComplexCenteredStudentMLE(ComplexEmpiricalCovariance):
         covariance, err, iteration = complex_student_t_mle_fixed_point(
             X, self.df, init, self.tol, self.iter_max, self.verbosity
         )
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
@@ -1300,8 +1300,8 @@ class ComplexTylerShapeMatrix(ComplexEmpiricalCovariance):
         X = self._validate_data(X)
         covariance, err, iteration = self._estimation_function(
             X, init, **kwargs)
-        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self._set_covariance(covariance)
+        self.location_ = np.zeros(X.shape[1], dtype=complex)
         self.err_ = err
         self.iteration_ = iteration
         return self
diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 68f1fb1..5805753 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -174,10 +174,10 @@ class KroneckerEllipticalMM(ComplexEmpiricalCovariance):
             X, self.a, self.b, tol=self.tol, iter_max=self.iter_max,
             verbosity=self.verbosity
         )
+        self._set_covariance(np.kron(A, B))
         self.A_ = A
         self.B_ = B
         self.location_ = np.zeros(X.shape[1], dtype=complex)
-        self._set_covariance(np.kron(A, B))
 
         return self
 
@@ -381,18 +381,19 @@ class KroneckerStudent(ComplexEmpiricalCovariance):
         self._set_manifold()
         X = self._validate_data(X)
         if self.assume_centered:
-            self.location_ = np.zeros(X.shape[1])
+            location = np.zeros(X.shape[1])
         else:
-            self.location_ = X.mean(0)
+            location = X.mean(0)
 
         # Using pymanopt solver to obtain estimate
         A, B = _estimate_covariance_kronecker_t_gradient(
-            X, self.df, self.a, self.b, self.manifold, self.location_,
+            X, self.df, self.a, self.b, self.manifold, location,
             self.verbosity, init
         )
+        self._set_covariance(np.kron(A, B))
+        self.location_ = location
         self.A_ = A
         self.B_ = B
-        self._set_covariance(np.kron(A, B))
 
         return self
 
-- 
2.43.0


From ff60f63c8ba487f52efb2ee1a5dcb90b9f6ddb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 49/55] fix: an online estimator kept an estimate whose
 covariance was refused

---
 robuststats/online/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/online/estimation.py b/robuststats/online/estimation.py
index 7524510..74e92d3 100644
--- a/robuststats/online/estimation.py
+++ b/robuststats/online/estimation.py
@@ -37,9 +37,9 @@ class StochasticGradientCovarianceEstimator(ComplexEmpiricalCovariance):
             return self.estimatetocov(estimate)
 
     def set_estimate(self, estimate):
-        self.estimate_ = estimate
         covariance = self._estimate_to_cov(estimate)
         self._set_covariance(covariance)
+        self.estimate_ = estimate
         self.location_ = np.zeros(len(self.covariance_), dtype=complex)
 
     def _current_lr(self, lr_update, iteration):
-- 
2.43.0


From 3d0c066ce8e80050f2e74eec5e554ee36a35b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 50/55] fix: weighted products accept components with a metric
 by column (k > 1)

---
 robuststats/models/manifolds.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/robuststats/models/manifolds.py b/robuststats/models/manifolds.py
index 626fb32..8c26c23 100644
--- a/robuststats/models/manifolds.py
+++ b/robuststats/models/manifolds.py
@@ -385,12 +385,12 @@ class WeightedProduct(man.Product):
 
     def inner(self, X, G, H):
         weights = self._weights
-        return np.sum([weights[k]*np.squeeze(man.inner(X[k], G[k], H[k]))
+        return np.sum([weights[k]*np.sum(man.inner(X[k], G[k], H[k]))
                        for k, man in enumerate(self._manifolds)])
 
     def dist(self, X, Y):
         weights = self._weights
-        return np.sqrt(np.sum([weights[k]*np.squeeze(man.dist(X[k], Y[k])**2)
+        return np.sqrt(np.sum([weights[k]*np.sum(man.dist(X[k], Y[k])**2)
                                for k, man in enumerate(self._manifolds)]))
 
     def egrad2rgrad(self, X, U):
@@ -413,9 +413,13 @@ class WeightedProduct(man.Product):
     def randvec(self, X):
         weights = self._weights
         scale = len(self._manifolds) ** (-1/2)
+        vectors = [man.randvec(X[k]) for k, man in enumerate(self._manifolds)]
+        # Total norm of each component (norm is by column in some manifolds).
+        norms = [np.sqrt(np.sum(man.inner(X[k], vectors[k], vectors[k])))
+                 for k, man in enumerate(self._manifolds)]
         return _ProductTangentVector(
-            [scale * weights[k]**(-1/2) * man.randvec(X[k])
-             for k, man in enumerate(self._manifolds)])
+            [scale * weights[k]**(-1/2) / norms[k] * vectors[k]
+             for k in range(len(self._manifolds))])
 
 
 class KroneckerHermitianPositiveElliptical(WeightedProduct):
-- 
2.43.0


From 0d8ba72c54cb5f2783def8980db58341604dc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 51/55] fix: unit determinant of generated covariances of large
 size

---
 robuststats/utils/generation_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robuststats/utils/generation_data.py b/robuststats/utils/generation_data.py
index f2f4c39..6aa88d4 100644
--- a/robuststats/utils/generation_data.py
+++ b/robuststats/utils/generation_data.py
@@ -31,7 +31,7 @@ def generate_covariance(p, unit_det=False):
     sigma = Q@D@Q.T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = sigma/np.exp(la.slogdet(sigma)[1]/p)
 
     return sigma
 
@@ -47,7 +47,7 @@ def generate_complex_covariance(p, unit_det=False):
     sigma = Q@D@Q.conj().T
 
     if unit_det:
-        sigma = sigma/(np.real(la.det(sigma))**(1/p))
+        sigma = sigma/np.exp(la.slogdet(sigma)[1]/p)
 
     return sigma
 
-- 
2.43.0


From 70fbcbfc79f295739ff996302f31442e2b7a82d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 52/55] fix: fits to narrow integer data overflowed

---
 robuststats/estimation/base.py       | 15 +++++++++++++++
 robuststats/estimation/covariance.py |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/robuststats/estimation/base.py b/robuststats/estimation/base.py
index 55e2363..ba0c6ab 100644
--- a/robuststats/estimation/base.py
+++ b/robuststats/estimation/base.py
@@ -14,6 +14,7 @@ from joblib import Parallel, delayed
 import numpy as np
 from scipy import linalg
 from sklearn.covariance import EmpiricalCovariance
+from sklearn.covariance import empirical_covariance as sk_empirical_covariance
 from sklearn.base import BaseEstimator, TransformerMixin
 from sklearn.utils.validation import check_array,\
     _deprecate_positional_args
@@ -348,9 +349,23 @@ def complex_empirical_covariance(X, *, assume_centered=False):
     return covariance
 
 
+def empirical_covariance(X, *, assume_centered=False):
+    """Scikit-learn empirical covariance, of integers as of floats: products
+    of integers would overflow."""
+    X = np.asarray(X)
+    if X.dtype.kind in 'iub':
+        X = X.astype(float)
+    return sk_empirical_covariance(X, assume_centered=assume_centered)
+
+
 class RealEmpiricalCovariance(EmpiricalCovariance, TransformerMixin):
     """Scikit-learn Empirical covariance + transform to get the covariance after.
     """
+    def _validate_data(self, X, **kwargs):
+        X = super()._validate_data(X, **kwargs)
+        # products of integers would overflow
+        return X.astype(float) if X.dtype.kind in 'iub' else X
+
     def transform(self, X):
         return self.covariance_
 
diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index e6cf887..a22181b 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -17,9 +17,9 @@ from scipy.stats import multivariate_t
 from scipy.stats import chi2
 
 from sklearn.utils.validation import _deprecate_positional_args
-from sklearn.covariance import EmpiricalCovariance, empirical_covariance
+from sklearn.covariance import EmpiricalCovariance
 from .base import complex_empirical_covariance, ComplexEmpiricalCovariance,\
-                RealEmpiricalCovariance
+                RealEmpiricalCovariance, empirical_covariance
 from ..models.mappings import arraytoreal, arraytocomplex, covariancetocomplex,\
     covariancetoreal
 from ..models.manifolds import HermitianPositiveDefinite
-- 
2.43.0


From b3409e63b8e96a3edad5bdf4026729d77b79d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:35 +0000
Subject: [PATCH 53/55] fix: arraytocomplex failed on arrays of zero samples

---
 robuststats/models/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robuststats/models/mappings.py b/robuststats/models/mappings.py
index 6beee97..e897342 100644
--- a/robuststats/models/mappings.py
+++ b/robuststats/models/mappings.py
@@ -73,7 +73,7 @@ def arraytocomplex(a):
             if a.shape[1] % 2 != 0:
                 raise AttributeError("Input array format not supported")
             p = int(a.shape[1]/2)
-            return np.vstack(a[:, :p] + 1j*a[:, p:])
+            return a[:, :p] + 1j*a[:, p:]
         else:
             raise AttributeError("Input array format not supported")
     else:
-- 
2.43.0


From f3cf05888b36ab00b33b2900c0bb009b6d3160de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:43 +0000
Subject: [PATCH 54/55] fix: KroneckerStudent.fit failed with real or nested
 list initial points

---
 robuststats/estimation/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/structured.py b/robuststats/estimation/structured.py
index 5805753..032be62 100644
--- a/robuststats/estimation/structured.py
+++ b/robuststats/estimation/structured.py
@@ -339,7 +339,8 @@ def _estimate_covariance_kronecker_t_gradient(X, df, a, b, manifold,
         # The manifold contains the matrices A of unit determinant only.
         A, B = init
         scale = np.exp(la.slogdet(A)[1]/a)
-        theta_0 = (np.asarray(A)/scale, np.asarray(B)*scale)
+        theta_0 = (np.asarray(A, dtype=complex)/scale,
+                   np.asarray(B, dtype=complex)*scale)
     A, B = solver.solve(problem, x=theta_0)
 
     return A, B
-- 
2.43.0


From 075b5fc8267e331c077c5eebcb0954ca9741b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:43 +0000
Subject: [PATCH 55/55] fix: natural gradient failed with list, integer and
 real initial points

---
 robuststats/estimation/covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robuststats/estimation/covariance.py b/robuststats/estimation/covariance.py
index a22181b..43835c6 100644
--- a/robuststats/estimation/covariance.py
+++ b/robuststats/estimation/covariance.py
@@ -381,6 +381,8 @@ def tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None',
     problem = Problem(manifold=manifold, cost=cost,
                       egrad=egrad, verbosity=verbose)
     solver = SteepestDescent()
+    if init is not None:
+        init = np.asarray(init).astype(float, casting='same_kind')
     sigma = solver.solve(problem, x=init)
     return sigma/S(sigma), -cost(sigma), None
 
@@ -937,7 +939,7 @@ def complex_tyler_shape_matrix_naturalgradient(X, init=None, normalisation='None
     # real equivalent problem has the structure of a complex matrix.
     X_real = np.vstack([arraytoreal(X), arraytoreal(1j*X)])
     if init is not None:
-        init = covariancetoreal(init)
+        init = covariancetoreal(np.asarray(init, dtype=complex))
     Sigma, cost_value, _ = tyler_shape_matrix_naturalgradient(
         X_real, init=init, normalisation='None',
         verbosity=verbosity, **kwargs
-- 
2.43.0

