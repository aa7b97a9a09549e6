From 0e7c30893f0d0febeb30cc88d0b9e5f4c1736d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 01/32] fix: elastic net lambda_max uses the absolute y-gram
 when all coefficients are regularised

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From 982f8ff237096390968124bac85b3e3a18b93b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 02/32] fix: coordinate descent path honours the "average"
 start value

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From d8b1837fe63400309b4427f59fb0ef74b9b178f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 03/32] fix: linear model tracks the weighted, discounted RSS
 for model selection

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..e6b8022 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -154,10 +155,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, X.shape[0])
+            self._rss = np.sum(np.expand_dims(weights, -1) * residuals**2, axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -218,7 +218,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, X.shape[0])
+            self._rss = (1 - self.forget) ** X.shape[0] * self._rss + np.sum(
+                np.expand_dims(weights, -1) * residuals**2, axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From b0572f2c7e88d390ab1f9ebf2a2f8165caa7354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 04/32] fix: global_ll model selection uses the sample weights
 in the initial fit

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..5854236 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -498,7 +498,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From 91bc946c206aca1d4fde8dcde9415ddf0827a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 05/32] fix: local_rss model selection carries over the
 discounted weighted RSS in updates

---
 src/ondil/estimators/online_gamlss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 5854236..841de3e 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1182,7 +1182,7 @@ class OnlineDistributionalRegression(
 
             # Sum and mean of the weights
             self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1371,9 +1371,9 @@ class OnlineDistributionalRegression(
         self._sum_of_weights_new[param] = (
             np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
         )
-        self._mean_of_weights_new[param] = (
-            self._sum_of_weights_new[param] / self.n_training_[param]
-        )
+        # Same denominator as in the tracked RSS, so that the product of both is
+        # the (discounted) weighted RSS in the next update.
+        self._mean_of_weights_new[param] = denom
         self._it_inner[param] = it_inner
         return dv_it
 
-- 
2.43.0


From cebb8ac477c0558675f6efdd4a45063a59c2bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 06/32] fix: distributions provide the median needed by
 predict_median

---
 src/ondil/base/distribution.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..473ab2d 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,18 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """
+        Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.ppf(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From f63d2e9b9092e8b3e883b293ba7d951ee2a1d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 07/32] fix: inflated distributions provide the mean needed by
 predict

---
 src/ondil/distributions/betainflated.py      | 4 ++++
 src/ondil/distributions/betainflatedzero.py  | 4 ++++
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..205cdd0 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -220,6 +220,10 @@ class BetaInflated(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, sigma, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..ba26842 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -180,6 +180,10 @@ class BetaInflatedZero(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, sigma, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..2c6914c 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -142,6 +142,10 @@ class ZeroAdjustedGamma(Distribution):
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
+    def mean(self, theta):
+        mu, sigma, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def rvs(self, size, theta):
         sim_unif = st.uniform.rvs(size=size)
         return self.ppf(q=sim_unif, theta=theta)
-- 
2.43.0


From f902dac448848532dd0a3e1c785ec9e3ee92c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 08/32] fix: rvs of inflated distributions returns shape
 (theta.shape[0], size)

---
 src/ondil/distributions/betainflated.py      | 4 ++--
 src/ondil/distributions/betainflatedzero.py  | 4 ++--
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 205cdd0..df6fd3b 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -225,8 +225,8 @@ class BetaInflated(Distribution):
         return (mu + tau) / (1 + nu + tau)
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index ba26842..71bbc5b 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -185,8 +185,8 @@ class BetaInflatedZero(Distribution):
         return mu / (1 + nu)
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 2c6914c..d7727b2 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -147,8 +147,8 @@ class ZeroAdjustedGamma(Distribution):
         return (1 - nu) * mu
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From 4e3b3c4edbdb2a827502ea7ba4f385b9f843bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 09/32] fix: inflated distributions are coherent outside their
 support and for small scale

---
 src/ondil/distributions/betainflated.py      |  2 +-
 src/ondil/distributions/betainflatedzero.py  |  1 +
 src/ondil/distributions/zeroadjustedgamma.py | 10 ++++------
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index df6fd3b..ee59b30 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -237,7 +237,7 @@ class BetaInflated(Distribution):
 
         result = np.where(
             (y < 0) | (y > 1),
-            0,
+            -np.inf,
             np.where(
                 y == 0,
                 np.log(nu) - np.log(1 + nu + tau),
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 71bbc5b..c063ac4 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -199,6 +199,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.where(y > 0, logpdf_beta, logfy)
         logfy = np.where(y == 0, np.log(nu), logfy)
         result = logfy - np.log(1 + nu)
+        result = np.where((y < 0) | (y >= 1), -np.inf, result)
 
         return result
 
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index d7727b2..091d22c 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -112,6 +112,7 @@ class ZeroAdjustedGamma(Distribution):
         cont_cdf = nu + ((1 - nu) * cdf_gamma)
 
         result = np.where(y == 0, nu, cont_cdf)
+        result = np.where(y < 0, 0, result)
 
         return result
 
@@ -121,12 +122,7 @@ class ZeroAdjustedGamma(Distribution):
         scale = mu * sigma**2
         pdf_gamma = st.gamma(a=shape, loc=0, scale=scale).pdf(y)
 
-        result = (
-            (1 - nu)
-            * (y / (mu * sigma**2)) ** (1 / sigma**2)
-            * (np.exp(-y / (mu * sigma**2)))
-            / (y * spc.gamma(1 / sigma**2))
-        )
+        result = (1 - nu) * pdf_gamma
 
         return np.where(y == 0, nu, result)
 
@@ -161,6 +157,7 @@ class ZeroAdjustedGamma(Distribution):
             - spc.gammaln(1 / sigma**2)
         )
 
+        result = np.where(y < 0, -np.inf, result)
         return np.where(y == 0, np.log(nu), result)
 
     def logcdf(self, y, theta):
@@ -171,6 +168,7 @@ class ZeroAdjustedGamma(Distribution):
         cont_logcdf_gamma = np.log(nu + ((1 - nu) * cdf_gamma))
 
         result = np.where(y == 0, np.log(nu), cont_logcdf_gamma)
+        result = np.where(y < 0, -np.inf, result)
 
         return result
 
-- 
2.43.0


From 3d5793c1e112533c68fc9569a9e0dd5dd1acb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 10/32] fix: log-normal and inverse gamma support excludes
 zero, where the density is undefined

---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..74d1a4e 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From af49e64c8316d8ae2bb2d366f851597a50f1b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 11/32] fix: derivative of the inverse softplus link

---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..8da05b9 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, (1 - robust_exp(-x)))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From ee7bf7e47e5d5ab63b9a0a8dbbc1922ebf926641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 12/32] fix: softplus and its inverse keep their precision (and
 support) for small values

---
 src/ondil/links/robust_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/links/robust_math.py b/src/ondil/links/robust_math.py
index 76327f1..4d13ec0 100644
--- a/src/ondil/links/robust_math.py
+++ b/src/ondil/links/robust_math.py
@@ -49,7 +49,7 @@ def robust_softplus(value):
     if value > 40:
         return value
     else:
-        return np.log(1 + np.exp(value))
+        return np.log1p(np.exp(value))
 
 
 @nb.vectorize(["float32(float32)", "float64(float64)"])
@@ -59,7 +59,7 @@ def robust_softplus_inverse(value):
     elif value < SMALL_NUMBER:
         return -30
     else:
-        return np.log(np.exp(value) - 1)
+        return np.log(np.expm1(value))
 
 
 @nb.vectorize(["float32(float32, float32)", "float64(float64, float64)"])
-- 
2.43.0


From ea4f7f58b81c3409cb81d87b927fc9333ba273de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 13/32] fix: LogIdent implements the derivatives of the link

---
 src/ondil/links/loglinks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/links/loglinks.py b/src/ondil/links/loglinks.py
index fccd75d..119fe96 100644
--- a/src/ondil/links/loglinks.py
+++ b/src/ondil/links/loglinks.py
@@ -105,7 +105,7 @@ class LogIdent(LinkFunction):
         return np.where(x <= 0, robust_exp(x), 1)
 
     def link_derivative(self, x: np.ndarray) -> np.ndarray:
-        return super().link_derivative(x)
+        return np.where(x <= 1, 1 / x, 1)
 
     def link_second_derivative(self, x) -> np.ndarray:
-        return super().link_second_derivative(x)
+        return np.where(x <= 1, -1 / x**2, 0)
-- 
2.43.0


From 349ff51edacbf28843392573d74ba274057f885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 14/32] fix: AICC accepts arrays of numbers of parameters

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From bb59529ac0be7ea6dc0525c498a634c041b1c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 15/32] fix: batch update of the inverted gram works with the
 default scalar weight

---
 src/ondil/gram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ondil/gram.py b/src/ondil/gram.py
index f7d4c0e..820f5f6 100644
--- a/src/ondil/gram.py
+++ b/src/ondil/gram.py
@@ -225,6 +225,7 @@ def update_inverted_gram(
     if X.shape[0] == 1:
         new_gram = _update_inverted_gram(gram, X, forget=forget, w=w)
     else:
+        w = np.broadcast_to(w, X.shape[0])
         new_gram = _update_inverted_gram(
             gram, X=np.expand_dims(X[0, :], 0), forget=forget, w=w[0]
         )
-- 
2.43.0


From bbbade20b34ca00733ed2ecf1eb40a35d5b526d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 16/32] fix: documented per-parameter dicts pass the parameter
 validation

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 841de3e..83713ee 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 8ca7a7c62072bd5a6adfcca7830ce1d3748ba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 17/32] fix: incomplete parameter and equation dicts of the
 user are not modified

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 83713ee..1da407f 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,7 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            attribute = dict(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +308,7 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            equation = dict(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
-- 
2.43.0


From 9d50c6ddf3bf15da846332879ab27c123417703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 18/32] fix: step sizes are assigned by distribution parameter,
 not by dict order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 1da407f..5c555c6 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -635,7 +635,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From 94cfb725e90001e5850854dec02be2863312a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:57 +0000
Subject: [PATCH 19/32] fix: equations given as lists of column names work for
 data frames

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 5c555c6..40f8a41 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -412,6 +412,8 @@ class OnlineDistributionalRegression(
                     out = X.to_numpy()
             elif isinstance(eq, np.ndarray) | isinstance(eq, list):
                 if isinstance(X, np.ndarray):
+                    if isinstance(eq, list) and any(isinstance(c, str) for c in eq):
+                        eq = [list(self.feature_names_in_).index(c) for c in eq]
                     out = X[:, eq]
                 if HAS_PANDAS and isinstance(X, pd.DataFrame):
                     out = X.loc[:, eq]
-- 
2.43.0


From 0dded1d9d10173456752b6f5534c2d091be62917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:19 +0000
Subject: [PATCH 20/32] fix: deviance for step control and convergence is
 discounted like the estimating equations

---
 src/ondil/estimators/online_gamlss.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 40f8a41..aa56e06 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -890,7 +890,8 @@ class OnlineDistributionalRegression(
 
     def _outer_update(self, X, y, w):
         ## for new observations:
-        global_di = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w)
+        f = init_forget_vector(self._forget[0], y.shape[0])
+        global_di = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w * f)
         global_dev = (1 - self._forget[0]) ** y.shape[0] * self._global_dev + global_di
         global_dev_old = global_dev + 1000
         it_outer = 0
@@ -942,7 +943,8 @@ class OnlineDistributionalRegression(
 
     def _outer_fit(self, X, y, w):
         global_di = -2 * self.distribution.logpdf(y, self._fv)
-        global_dev = np.sum(w * global_di)
+        f = init_forget_vector(self._forget[0], y.shape[0])
+        global_dev = np.sum(w * f * global_di)
         global_dev_old = global_dev + 1000
         it_outer = 0
 
@@ -998,7 +1000,9 @@ class OnlineDistributionalRegression(
         param,
         dv,
     ):
-        dv_start = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w)
+        # The deviance is discounted in the same way as the estimating equations
+        f = init_forget_vector(self._forget[param], y.shape[0])
+        dv_start = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w * f)
         dv_iterations = np.repeat(dv_start, self.max_it_inner + 1)
         fv_it = copy.copy(self._fv)
         fv_it_new = copy.copy(self._fv)
@@ -1108,7 +1112,6 @@ class OnlineDistributionalRegression(
                 self._debug_coef_path[key] = copy.copy(beta_path_it)
 
             # Calculate the prediction, residuals and RSS
-            f = init_forget_vector(self._forget[param], y.shape[0])
             prediction_it = step_it * (X[param] @ beta_it.T) + (1 - step_it) * eta
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
@@ -1117,7 +1120,7 @@ class OnlineDistributionalRegression(
             fv_it_new[:, param] = self.distribution.link_inverse(
                 prediction_it, param=param
             )
-            dv_it = np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w)
+            dv_it = np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w * f)
             dv_old = dv_iterations[it_inner]
             dv_increasing = dv_it > dv_old
 
@@ -1212,8 +1215,9 @@ class OnlineDistributionalRegression(
         # dv = (1 - self._forget[0]) * self._global_dev + np.sum(di * w)
         # olddv = dv + 1
 
+        f = init_forget_vector(self._forget[param], y.shape[0])
         dv_start = (
-            np.sum(-2 * self.distribution.logpdf(y, self._fv) * w)
+            np.sum(-2 * self.distribution.logpdf(y, self._fv) * w * f)
             + (1 - self._forget[0]) ** y.shape[0]
             * self._global_dev  # global dev is previous observation / fit
         )
@@ -1294,7 +1298,6 @@ class OnlineDistributionalRegression(
                 self._debug_coef_path[key] = copy.copy(beta_path_it)
 
             # Calculate the prediction, residuals and RSS
-            f = init_forget_vector(self._forget[param], y.shape[0])
             prediction_it = X[param] @ beta_it.T
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
@@ -1316,7 +1319,7 @@ class OnlineDistributionalRegression(
                 prediction_it, param=param
             )
             dv_it = (
-                np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w)
+                np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w * f)
                 + (1 - self._forget[0]) ** y.shape[0] * self._global_dev
             )
             dv_old = dv_iterations[it_inner]
-- 
2.43.0


From 423b413f4776847eb0d682ec1ad78e55359568b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:59 +0000
Subject: [PATCH 21/32] fix: updates clip the working weights like the initial
 fit (zero weights gave NaN coefficients)

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index aa56e06..0f75783 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1235,7 +1235,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From e5ea871d59792a0b2d2afd5605be697b09627536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:14 +0000
Subject: [PATCH 22/32] fix: log-normal density and cdf are defined outside the
 support

---
 src/ondil/distributions/lognormal.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 74d1a4e..8d39ebf 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -93,19 +93,16 @@ class LogNormal(ScipyMixin, Distribution):
         """
         Probability density function of the Log-Normal distribution.
         """
-        mu, sigma = self.theta_to_params(theta)
-        return (
-            1
-            / (y * sigma * np.sqrt(2 * np.pi))
-            * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
-        )
+        return np.exp(self.logpdf(y, theta))
 
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Cumulative distribution function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return st.norm.cdf((np.log(y) - mu) / sigma)
+        with np.errstate(divide="ignore"):
+            log_y = np.log(np.maximum(y, 0))
+        return st.norm.cdf((log_y - mu) / sigma)
 
     def ppf(self, p: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
@@ -119,9 +116,15 @@ class LogNormal(ScipyMixin, Distribution):
         Logarithm of the probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
-            -((np.log(y) - mu) ** 2) / (2 * sigma**2)
+        y = np.asarray(y)
+        log_y = np.log(np.where(y <= 0, 1, y))
+        logpdf = -np.log(sigma * np.sqrt(2 * np.pi)) - log_y + (
+            -((log_y - mu) ** 2) / (2 * sigma**2)
         )
+        return np.where(y <= 0, -np.inf, logpdf)
 
     def logcdf(self, y, theta):
-        return np.log(self.cdf(y, theta))
+        mu, sigma = self.theta_to_params(theta)
+        with np.errstate(divide="ignore"):
+            log_y = np.log(np.maximum(y, 0))
+        return st.norm.logcdf((log_y - mu) / sigma)
-- 
2.43.0


From 360d02319d6ca3f86b68b4dd325fd260a99ed04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:00 +0000
Subject: [PATCH 23/32] fix: inverse links stay inside their declared support
 when the exponential under- or overflows

---
 src/ondil/links/logitlinks.py    | 2 +-
 src/ondil/links/loglinks.py      | 8 +++++---
 src/ondil/links/softpluslinks.py | 4 ++--
 src/ondil/links/sqrtlinks.py     | 4 ++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ondil/links/logitlinks.py b/src/ondil/links/logitlinks.py
index 34c38f0..468dd6c 100644
--- a/src/ondil/links/logitlinks.py
+++ b/src/ondil/links/logitlinks.py
@@ -19,7 +19,7 @@ class Logit(LinkFunction):
         return robust_log(x / (1 - x))
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return robust_exp(x) / (robust_exp(x) + 1)
+        return np.clip(robust_exp(x) / (robust_exp(x) + 1), *self.link_support)
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return robust_exp(x) / ((robust_exp(x) + 1) ** 2)
diff --git a/src/ondil/links/loglinks.py b/src/ondil/links/loglinks.py
index 119fe96..2e66dc7 100644
--- a/src/ondil/links/loglinks.py
+++ b/src/ondil/links/loglinks.py
@@ -22,7 +22,7 @@ class Log(LinkFunction):
         return robust_log(x)
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return robust_exp(x)
+        return np.maximum(robust_exp(x), self.link_support[0])
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return robust_exp(x)
@@ -55,7 +55,7 @@ class LogShiftValue(LinkFunction):
         return robust_log(x - self.value + SMALL_NUMBER)
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return self.value + robust_exp(x)
+        return np.maximum(self.value + robust_exp(x), self.link_support[0])
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return robust_exp(x)
@@ -99,7 +99,9 @@ class LogIdent(LinkFunction):
         return np.where(x <= 1, robust_log(x), x - 1)
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return np.where(x <= 0, robust_exp(x), x + 1)
+        return np.maximum(
+            np.where(x <= 0, robust_exp(x), x + 1), self.link_support[0]
+        )
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return np.where(x <= 0, robust_exp(x), 1)
diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 8da05b9..e819217 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -34,7 +34,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus_inverse(x)
 
     def inverse(self, x: np.ndarray):
-        return robust_softplus(x)
+        return np.maximum(robust_softplus(x), self.link_support[0])
 
     def link_derivative(self, x: np.ndarray):
         return zero_safe_division(1, (1 - robust_exp(-x)))
@@ -67,7 +67,7 @@ class InverseSoftPlusShiftValue(LinkFunction):
         return robust_softplus_inverse(z)
 
     def inverse(self, x: np.ndarray):
-        return robust_softplus(x) + self.value
+        return np.maximum(robust_softplus(x) + self.value, self.link_support[0])
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return zero_safe_division(1, (robust_exp(-x) + 1))
diff --git a/src/ondil/links/sqrtlinks.py b/src/ondil/links/sqrtlinks.py
index 91a8031..01169bf 100644
--- a/src/ondil/links/sqrtlinks.py
+++ b/src/ondil/links/sqrtlinks.py
@@ -21,7 +21,7 @@ class Sqrt(LinkFunction):
         return np.sqrt(x)
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return np.power(x, 2)
+        return np.maximum(np.power(x, 2), self.link_support[0])
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return 2 * x
@@ -54,7 +54,7 @@ class SqrtShiftValue(LinkFunction):
         return np.sqrt(x - self.value + SMALL_NUMBER)
 
     def inverse(self, x: np.ndarray) -> np.ndarray:
-        return self.value + np.power(x, 2)
+        return np.maximum(self.value + np.power(x, 2), self.link_support[0])
 
     def inverse_derivative(self, x: np.ndarray) -> np.ndarray:
         return 2 * x
-- 
2.43.0


From bcc188493e7a4e06041fe92b5e3447d243abd46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 24/32] fix: OnlineLasso can be fitted, cloned and reconfigured
 (parameters were not stored)

---
 src/ondil/estimators/online_lasso.py | 43 +++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..99e8f21 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,23 +46,40 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
+
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
+            method=self._make_method(),
             ic=ic,
         )
+
+    def _make_method(self) -> LassoPath:
+        return LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+
+    def _prepare_fit(self):
+        # Parameters might have changed by `set_params()`.
+        self.method = self._make_method()
+        super()._prepare_fit()
-- 
2.43.0


From 4e2acf1e04b898ea113c5eff420eeeb1b2f1ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 25/32] fix: inverse Gaussian cross derivative rejects
 parameters that do not exist

---
 src/ondil/distributions/inversegaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ondil/distributions/inversegaussian.py b/src/ondil/distributions/inversegaussian.py
index a874dff..0c46b07 100644
--- a/src/ondil/distributions/inversegaussian.py
+++ b/src/ondil/distributions/inversegaussian.py
@@ -87,8 +87,7 @@ class InverseGaussian(ScipyMixin, Distribution):
     def dl2_dpp(
         self, y: np.ndarray, theta: np.ndarray, params: tuple[int, int] = (0, 1)
     ) -> np.ndarray:
-        if params[0] == params[1]:
-            raise ValueError("Cross derivatives must use different parameters.")
+        self._validate_dl2_dpp_inputs(y, theta, params)
         return np.zeros_like(y)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 14f485f9d1665128b0cb1c7af9d058486f6857fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:20 +0000
Subject: [PATCH 26/32] fix: gramians of the batch fit stay current when the
 deviance changes by rounding only

---
 src/ondil/estimators/online_gamlss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 0f75783..e4c2a8b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1126,7 +1126,10 @@ class OnlineDistributionalRegression(
 
             # This should really not happen unless your start values are
             # way to good and the model cannot reach these
-            bad_state = dv_it > dv_iterations[0]
+            # Increases within the tolerance are convergence, not a bad state
+            bad_state = dv_it - dv_iterations[0] > max(
+                self.abs_tol_inner, self.rel_tol_inner * abs(dv_iterations[0])
+            )
 
             # print(dv_it, dv_old, dv_increasing)
             message = f"Outer iteration {it_outer}: Fitting Parameter {param}: Inner iteration {it_inner}: Current Deviance {dv_it}"
-- 
2.43.0


From 00be1e926c52be06809978d6a78a54a2bba2f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:54 +0000
Subject: [PATCH 27/32] fix: partial_fit of transformers does not require a
 response

---
 src/ondil/base/estimator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ondil/base/estimator.py b/src/ondil/base/estimator.py
index ed6689b..b701457 100644
--- a/src/ondil/base/estimator.py
+++ b/src/ondil/base/estimator.py
@@ -17,7 +17,10 @@ class OndilEstimatorMixin(ABC):
         return self.n_observations_
 
     def partial_fit(
-        self, X: np.ndarray, y: np.ndarray, sample_weight: np.ndarray | None = None
+        self,
+        X: np.ndarray,
+        y: np.ndarray | None = None,
+        sample_weight: np.ndarray | None = None,
     ):
         """
         Align ondil with the scikit-learn API for partial fitting.
@@ -29,8 +32,8 @@ class OndilEstimatorMixin(ABC):
         ----------
         X : np.ndarray
             The input data.
-        y : np.ndarray
-            The target values.
+        y : np.ndarray, optional
+            The target values. Not used by transformers, by default None.
         sample_weight : np.ndarray, optional
             Sample weights for the observations, by default None.
         Returns
-- 
2.43.0


From 64e9fd59fab93d96f5e9729d6ebef0a2f42b2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:09 +0000
Subject: [PATCH 28/32] fix: update before fit raises NotFittedError

---
 src/ondil/estimators/online_gamlss.py       | 1 +
 src/ondil/estimators/online_linear_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e4c2a8b..b0d57fd 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -790,6 +790,7 @@ class OnlineDistributionalRegression(
             y (np.ndarray): Response variable $Y$.
             sample_weight (Optional[np.ndarray], optional): User-defined sample weights. Defaults to None (all observations have the same weight).
         """
+        check_is_fitted(self)
         X, y = validate_data(
             self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
         )
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index e6b8022..c73bac4 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -188,6 +188,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             sample_weight (Optional[np.ndarray], optional): The weight for the new observations. `None` implies all observations have weight 1. Defaults to None.
         """
 
+        check_is_fitted(self)
         X, y = validate_data(
             self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
         )
-- 
2.43.0


From 2839e6780d17a86a9bf928d6567858e6cb50b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:09 +0000
Subject: [PATCH 29/32] fix: forget factors given by distribution parameter are
 validated

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index b0d57fd..3c3801d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -239,6 +239,8 @@ class OnlineDistributionalRegression(
         }
         # Parameters that can be set as dicts or single values need to be processed
         self._forget = self._process_parameter(self.forget, default=0.0, name="forget")
+        if not all(0.0 <= f < 1.0 for f in self._forget.values()):
+            raise ValueError("The forget factors should be in the interval [0, 1).")
         self._ic = self._process_parameter(self.ic, "aic", name="ic")
         self._fit_intercept = self._process_parameter(
             self.fit_intercept, True, "fit_intercept"
-- 
2.43.0


From 915b7c14f1182a60595740aec93563043691a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:09 +0000
Subject: [PATCH 30/32] fix: equations naming columns that do not exist raise
 ValueError

---
 src/ondil/estimators/online_gamlss.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 3c3801d..9b0c82d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -379,7 +379,9 @@ class OnlineDistributionalRegression(
                         raise ValueError(f"Shape does not match for param {p}.")
                     J[p] = np.sum(self._equation[p]) + int(self._fit_intercept[p])
                 elif np.issubdtype(self._equation[p].dtype, np.integer):
-                    if self._equation[p].max() >= X.shape[1]:
+                    if np.any(self._equation[p] >= X.shape[1]) or np.any(
+                        self._equation[p] < -X.shape[1]
+                    ):
                         raise ValueError(f"Shape does not match for param {p}.")
                     J[p] = self._equation[p].shape[0] + int(self._fit_intercept[p])
                 else:
@@ -388,6 +390,14 @@ class OnlineDistributionalRegression(
                         "please make sure it is of dtype bool or int."
                     )
             elif isinstance(self._equation[p], list):
+                names = list(getattr(self, "feature_names_in_", []))
+                for c in self._equation[p]:
+                    if isinstance(c, str):
+                        exists = c in names
+                    else:
+                        exists = -X.shape[1] <= c < X.shape[1]
+                    if not exists:
+                        raise ValueError(f"Column {c} for param {p} is not in X.")
                 J[p] = len(self._equation[p]) + int(self._fit_intercept[p])
             else:
                 raise ValueError("Something unexpected happened")
-- 
2.43.0


From 56bc2eb9ae026f7c99162a8f6a2b28fc41ca321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:11 +0000
Subject: [PATCH 31/32] fix: cautious updates accept batches of more than one
 observation

---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 9b0c82d..dafec85 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -867,8 +867,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.prefit_update)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
-- 
2.43.0


From 635b649361315332cc4e9dfe258f434532d8fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:11 +0000
Subject: [PATCH 32/32] fix: get_debug_information returns the requested
 iteration and the design matrices

---
 src/ondil/estimators/online_gamlss.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index dafec85..005d349 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1543,5 +1543,11 @@ class OnlineDistributionalRegression(
                 "Debug mode is not enabled. Please set debug=True when initializing the OnlineDistributionalRegression estimator."
             )
 
-        key = (param, it_outer, it_inner + 1)
+        if variable == "X_scaled":
+            return self._debug_X_scaled
+        if variable == "X_dict":
+            return self._debug_X_dict[param]
+
+        # Inner iterations are stored with a zero-based index
+        key = (param, it_outer, it_inner - 1)
         return getattr(self, f"_debug_{variable}")[key]
-- 
2.43.0

