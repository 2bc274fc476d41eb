From ae4cf6f5f9d29245b2ff5805b254117f25d9191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 01/97] fix: support of log-normal distribution with negative
 central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..e65ff45 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -347,9 +347,9 @@ class LogNormalDistribution(ProbabilityDistribution):
         if central_value < 0:
             self.central_sign = -1
             slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+                            + 6 * self.log_standard_deviation)
             super().__init__(central_value,
-                             support=(slim, 0))
+                             support=(-slim, 0))
         else:
             self.central_sign = +1
             slim = math.exp(math.log(abs(central_value))
-- 
2.43.0


From dd11d008fdab31a1fa60afbb96f11cdb11f1267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 02/97] fix: allow drawing a single random number from
 GammaDistribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index e65ff45..87b36b0 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -602,7 +602,7 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
+    def get_random(self, size=None):
         return self.scipy_dist.rvs(size=size)
 
     def cdf(self, x):
-- 
2.43.0


From 5df8034f6bb25a9f23c01b714778dcfd9d3a2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 03/97] fix: single draw of GammaDistributionPositive returns a
 number

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 87b36b0..5bbe67a 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -671,7 +671,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From e11e7f686c467908317bb37972400eb17c0166b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 04/97] fix: CDF of GammaDistributionPositive for arrays

---
 flavio/statistics/probability.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5bbe67a..7d2d8e6 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -687,10 +687,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
     def cdf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
         cdf = (self.scipy_dist.cdf(x) - cdf0)/(1-cdf0)
-        return np.piecewise(
-                    np.asarray(x, dtype=float),
-                    [x<0, x>=0],
-                    [0., cdf]) # return 0 for negative x
+        return np.where(np.asarray(x) < 0, 0., cdf) # return 0 for negative x
 
     def ppf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
-- 
2.43.0


From 2ac04c9090b0f8334664427dda2b369689ad607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 05/97] fix: pass signal counts through GammaUpperLimit

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 7d2d8e6..39e074d 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -844,7 +844,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From 3ca5d85207a2189fd6ec4d45ba2eac35ca72f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 06/97] fix: range check for vanishing central value in
 DiscreteUniformDistribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 39e074d..eeb3e0d 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -191,7 +191,7 @@ class DiscreteUniformDistribution(ProbabilityDistribution):
         - highest_value: highest integer value `b`
         - central_value (optional): integer within [a,b]. Default is int((a+b)/2)
         """
-        if central_value and (
+        if central_value is not None and (
             central_value > highest_value
             or central_value < lowest_value
         ):
-- 
2.43.0


From 51d4c1b8a33085fb706b42ced4b7f621d64f1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 07/97] fix: direct instantiation of
 GeneralGammaDistributionPositive

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index eeb3e0d..1134d37 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1022,7 +1022,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
-- 
2.43.0


From c22811bf2eabf2a895e947661431f60d0311977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 08/97] fix: convolution of multivariate normal distributions
 with array central values

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1134d37..ec0d4a7 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1778,7 +1778,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.all(np.asarray(p.central_value) == np.asarray(central_value)) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From 07705e892ed435a21fdb4645cd3a41e7b2ecc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 09/97] fix: ProbabilityDistribution.get_dict must not modify
 the instance

---
 flavio/statistics/probability.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ec0d4a7..463d522 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -100,20 +100,17 @@ class ProbabilityDistribution(object):
                 if isinstance(od[k], np.ndarray):
                     od[k] = od[k].tolist()
                 if isinstance(od[k], list):
-                    for i, x in enumerate(od[k]):
-                        if isinstance(x, np.ndarray):
-                            od[k][i] = od[k][i].tolist()
+                    od[k] = [x.tolist() if isinstance(x, np.ndarray) else x
+                             for x in od[k]]
         for k in od:
             if isinstance(od[k], int):
                 od[k] = int(od[k])
             elif isinstance(od[k], float):
                 od[k] = float(od[k])
             if isinstance(od[k], list):
-                for i, x in enumerate(od[k]):
-                    if isinstance(x, float):
-                        od[k][i] = float(od[k][i])
-                    elif isinstance(x, int):
-                        od[k][i] = int(od[k][i])
+                od[k] = [float(x) if isinstance(x, float)
+                         else int(x) if isinstance(x, int) else x
+                         for x in od[k]]
         return od
 
     def get_yaml(self, *args, **kwargs):
-- 
2.43.0


From 161aeaf66d46cd614ab8d5ad0dad49af24e3f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 10/97] fix: support of MultivariateNumericalDistribution
 without central value

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 463d522..54b699b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1494,7 +1494,8 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode,
+                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From 277e4534f6c748324cd95c800f3f38e0809dbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 11/97] fix: random draws from
 MultivariateNumericalDistribution

---
 flavio/statistics/probability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 54b699b..f7a812c 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1542,11 +1542,9 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
-        indices = np.where(self.y == self._y_flat[i_r])
-        i_bla = np.random.choice(len(indices[0]))
-        index = tuple([a[i_bla] for a in indices])
+        # find the index of the first CDF-value larger than r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
+        index = np.unravel_index(i_r, self.y.shape)
         xi_r = [ self.xi[i][index[i]] for i in range(len(self.xi)) ]
         xi_diff = np.array([ X[1]-X[0] for X in self.xi ])
         return xi_r + np.random.uniform(low=-0.5, high=0.5, size=len(self.xi)) * xi_diff
-- 
2.43.0


From 932bd7aad248699ca813116cc8c5b4d060bc80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 12/97] fix: raise for unsupported convolution of multivariate
 numerical distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index f7a812c..7625eaa 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1741,7 +1741,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From e2eaafa53af8ab4207f18061dcc8b9175224d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 13/97] fix: delta_logpdf with all dimensions but one excluded

---
 flavio/statistics/probability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 7625eaa..591708b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -126,6 +126,9 @@ class ProbabilityDistribution(object):
         if exclude is not None:
             d = len(self.central_value)
             cv = [self.central_value[i] for i in range(d) if i not in exclude]
+            if len(cv) == 1:
+                # only 1 dimension remains: the reduced distribution is univariate
+                cv = cv[0]
         else:
             cv = self.central_value
         return self.logpdf(x, **kwargs) - self.logpdf(cv, **kwargs)
-- 
2.43.0


From 08eaabf565b1ab276b6eaea4bb0971c541ebbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 14/97] fix: load kernel density estimates from a dictionary

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 591708b..9a319f1 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1272,7 +1272,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
@@ -2046,6 +2046,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # nested distribution, e.g. the kernel of a KernelDensityEstimate
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 788de53b680086db7118788337ff33c947b6f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 15/97] fix: consistent background_std and background_variance
 in GeneralGammaUpperLimit

---
 flavio/statistics/probability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9a319f1..c9dbf43 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1242,6 +1242,8 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
             counts_background=counts_background,
             counts_signal=counts_signal,
             background_std=background_std)
+        # keep the alias consistent if a tiny background_std was set to zero
+        self.background_variance = self.background_std
 
     def __repr__(self):
         return ('flavio.statistics.probability.GeneralGammaUpperLimit'
-- 
2.43.0


From a98e8662d2f22f6eefa51a72b7ac560c0341637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 16/97] fix: range of convolution of skewed multivariate
 numerical distributions

---
 flavio/statistics/probability.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c9dbf43..327d5d6 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1834,11 +1834,10 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     xi = np.zeros((len(mvnumerical.xi), nsteps))
     for i, x in enumerate(mvnumerical.xi):
         # enlarge the support
-        cvn = mvnumerical.central_value[i]
         cvg = mvgaussian.central_value[i]
         supp = [s[i] for s in mvgaussian.support]
-        x_max = cvn + (x[-1] - cvn) + (supp[-1] - cvn) +  np.mean(x) - cvg
-        x_min = cvn + (x[0] - cvn) + (supp[0] - cvn) +  np.mean(x) - cvg
+        x_max = x[-1] + (supp[-1] - cvg)
+        x_min = x[0] + (supp[0] - cvg)
         xi[i] = np.linspace(x_min, x_max, nsteps)
     xi_grid = np.array(np.meshgrid(*xi, indexing='ij'))
     # this will transpose from shape (0, 1, 2, ...) to (1, 2, ..., 0)
-- 
2.43.0


From 4159cc902e892e4bce84b841893ae7dec316cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 17/97] fix: central value of convolution of multivariate
 numerical distributions

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 327d5d6..89f041e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1849,10 +1849,12 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     f = scipy.signal.fftconvolve(y_num, y_gauss, mode='same')
     f[f < 0] = 0
     f = f/f.sum()
+    central_value = np.asarray(mvnumerical.central_value)
     if central_values == 'sum':
         # shift back
         xi = (xi.T + np.array(mvgaussian.central_value)).T
-    return MultivariateNumericalDistribution(xi, f)
+        central_value = central_value + np.asarray(mvgaussian.central_value)
+    return MultivariateNumericalDistribution(xi, f, central_value=central_value)
 
 
 def combine_distributions(probability_distributions):
-- 
2.43.0


From 228e21c99cb1e04071b8ceaf708f7182eb7d257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 18/97] fix: recognize triangular covariance matrices
 irrespective of their scale

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 89f041e..30cd963 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1356,7 +1356,9 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            _err = np.sqrt(np.diag(covariance))
+            _scaled = covariance / np.outer(_err, _err)
+            if not np.allclose(_scaled, _scaled.T):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From 56108a3d3b2a938bf253b648e0a9d150a17e923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 19/97] fix: accept arrays of indices in reduce_dimension

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 30cd963..2b53083 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1413,7 +1413,7 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         If `exclude` contains all indices but one, an instance of
         `NormalDistribution` will be returned.
         """
-        if not exclude:
+        if exclude is None or np.size(exclude) == 0:
             return self
         # if parameters are to be excluded, construct a
         # distribution with reduced mean vector and covariance matrix
@@ -1563,7 +1563,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         If `exclude` contains all indices but one, an instance of
         `NumericalDistribution` will be returned.
         """
-        if not exclude:
+        if exclude is None or np.size(exclude) == 0:
             return self
         # if parameters are to be excluded, construct a
         # distribution with reduced mean vector and covariance matrix
-- 
2.43.0


From 9cdb07b82d1db609f6e29cda76c010ca4413ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 20/97] fix: random draws of multivariate normal with errors of
 very different magnitude

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 2b53083..950ec52 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1404,7 +1404,10 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
 
     def get_random(self, size=None):
         """Get `size` random numbers (default: a single one)"""
-        return np.random.multivariate_normal(self.central_value, self.covariance, size)
+        # use the rescaled covariance to avoid loss of precision if the
+        # standard deviations have very different magnitudes
+        return self.central_value + self.err * np.random.multivariate_normal(
+            np.zeros(len(self.err)), self.scaled_covariance, size)
 
     def reduce_dimension(self, exclude=None):
         """Return a different instance where certain dimensions, specified by
-- 
2.43.0


From c801d57ccd7aa87e6388481f59ee3ea9df3b2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 21/97] fix: Constraints.add_constraint keeps its own list of
 parameters

The caller's list was stored, so changing it later silently changed which
parameters the constraint applies to.
---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..7d7c217 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -160,7 +160,7 @@ class Constraints(object):
                 self.remove_constraint(parameter)
         # populate the dictionaries defined in __init__
             self._parameters[parameter] = (num, constraint)
-        self._constraints.append((constraint, parameters))
+        self._constraints.append((constraint, list(parameters)))
 
     def set_constraint(self, parameter, constraint_string=None,
                                         constraint_dict=None):
-- 
2.43.0


From 8980c1b0f7d8aa986ccc23d7c356e7284f4bee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 22/97] fix: deprecated Constraints.get_1d_errors returns the
 errors

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 7d7c217..90c6b67 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -262,7 +262,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From 00e8a41cf210b994665af6f7b077f29b89685fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 23/97] fix: 'arguments' is optional in
 Constraints.from_yaml_dict, as documented

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 90c6b67..0fd6e15 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -436,7 +436,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From d308a430b862abf6161a33dbf4846056294a18d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 24/97] fix: get_yaml_dict only writes constraints that are in
 force

Constraints removed with remove_constraint were written to the YAML form
and thus came back when reading it.
---
 flavio/classes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 0fd6e15..3eff77e 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -378,6 +378,16 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            inactive = tuple(i for i, p in enumerate(parameters)
+                             if self._parameters.get(p) != (i, constraint))
+            if len(inactive) == len(parameters):
+                # constraint has been removed or replaced entirely
+                continue
+            if inactive:
+                # only some of the correlated parameters are still constrained
+                constraint = constraint.reduce_dimension(inactive)
+                parameters = [p for i, p in enumerate(parameters)
+                              if i not in inactive]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From b971ec15c8a91a574dad15f1955ebd156b2bb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 25/97] fix: wrong bin of a CDF measurement of B+->Kmumu

The measurement listed the bin [0, 2] twice so that the first value was
silently dropped; the second is the bin [0, 4.3].
---
 flavio/data/measurements.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index 4a04f17..1bd189b 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -6087,7 +6087,7 @@ CDF B+>Kmumu 2012:
       value: 0.72 ± 0.14 ± 0.04 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 0.00
-      q2max: 2.00
+      q2max: 4.30
       value: 2.55 ± 0.38 ± 0.15 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 1.00
-- 
2.43.0


From e2732b9253558c63d49e1ee8f0db9e33cef417f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 26/97] fix: central value of a univariate reduction is a
 number

It was an array of length one, so that the reduced distribution could not
be written to a dictionary and read back.
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 950ec52..6fc1b9e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1579,7 +1579,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From 63269b1e237d794e403cf5ae510aed891438d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 27/97] fix: general gamma distributions keep the Gaussian
 standard deviation given

The attribute was set to zero after the distribution had been constructed
with the value given, so that the dictionary form of a distribution with a
small standard deviation described a different distribution.
---
 flavio/statistics/probability.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 6fc1b9e..c56e9e6 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1023,7 +1023,6 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
         if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
-            self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
@@ -1146,7 +1145,6 @@ class GeneralGammaCountingProcess(GeneralGammaDistributionPositive):
             self.counts_total = counts_total
         self.background_std = background_std
         if self.background_std/np.sqrt(self.counts_total+1) < 1/100:
-            self.background_std = 0
             warnings.warn("For vanishing or very small background standard "
                           "deviation, it is safer to use GammaCountingProcess "
                           "instead of GeneralGammaCountingProcess to avoid "
-- 
2.43.0


From d8bff01e51fc505f7e845788ae1bb43689dd96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 28/97] fix: rounding in the consistency check of event counts

The rounding error of counts_total - counts_background - counts_signal is
relative to the largest of the three, so that consistent counts (like those
in the dictionary form of the distribution) were rejected.
---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c56e9e6..a082d9b 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -772,7 +772,7 @@ class GammaCountingProcess(GammaDistributionPositive):
             raise ValueError("counts_background should be a positive number, zero, or None")
         if [counts_total, counts_signal, counts_background].count(None) == 0:
             # if all three are specified, check the relation holds!
-            if abs((counts_total - counts_background - counts_signal)/(counts_total if counts_total != 0 else 1)) > 1e-15:
+            if abs(counts_total - counts_background - counts_signal) > 1e-15*(max(counts_total, counts_background, abs(counts_signal)) or 1):
                 raise ValueError("The relation `counts_total = counts_signal + counts_background` is not satisfied")
         if [counts_total, counts_signal, counts_background].count(None) > 1:
             raise ValueError("Of the three parameters `counts_total`, `counts_background`, and `counts_signal`, two must be specified")
@@ -1127,7 +1127,7 @@ class GeneralGammaCountingProcess(GeneralGammaDistributionPositive):
             raise ValueError("background_std should be a positive number")
         if [counts_total, counts_signal, counts_background].count(None) == 0:
             # if all three are specified, check the relation holds!
-            if abs((counts_total - counts_background - counts_signal)/(counts_total if counts_total != 0 else 1)) > 1e-15:
+            if abs(counts_total - counts_background - counts_signal) > 1e-15*(max(counts_total, counts_background, abs(counts_signal)) or 1):
                 raise ValueError("The relation `counts_total = counts_signal + counts_background` is not satisfied")
         if [counts_total, counts_signal, counts_background].count(None) > 1:
             raise ValueError("Of the three parameters `counts_total`, `counts_background`, and `counts_signal`, two must be specified")
-- 
2.43.0


From 50278f4b199e3ed6511d74dcaf55cc8a54076f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 29/97] fix: YAML form of distributions with tuples or numpy
 integers as arguments

The YAML string contained Python specific tags and could not be read.
---
 flavio/statistics/probability.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index a082d9b..3389caf 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -83,7 +83,8 @@ class ProbabilityDistribution(object):
         - `iterate`: If ProbabilityDistribution instances are among the
         arguments (e.g. for KernelDensityEstimate), return the instance's
         get_dict instead of the instance as value.
-        - `arraytolist`: convert numpy arrays to lists
+        - `arraytolist`: convert numpy arrays and tuples to lists and numpy
+        scalars to numbers
         """
         args = inspect.signature(self.__class__).parameters.keys()
         d = self.__dict__
@@ -96,12 +97,14 @@ class ProbabilityDistribution(object):
                 if isinstance(od[k], ProbabilityDistribution):
                     od[k] = od[k].get_dict(distribution=True)
         if arraytolist:
+            def tolist(v):
+                if isinstance(v, (np.ndarray, np.generic)):
+                    return v.tolist()
+                if isinstance(v, (list, tuple)):
+                    return [tolist(x) for x in v]
+                return v
             for k in od:
-                if isinstance(od[k], np.ndarray):
-                    od[k] = od[k].tolist()
-                if isinstance(od[k], list):
-                    od[k] = [x.tolist() if isinstance(x, np.ndarray) else x
-                             for x in od[k]]
+                od[k] = tolist(od[k])
         for k in od:
             if isinstance(od[k], int):
                 od[k] = int(od[k])
-- 
2.43.0


From 6516671cc4120fc4136da0d1dc240fd1d699c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 30/97] fix: YAML form of constraints on observables with numpy
 numbers as arguments

---
 flavio/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 3eff77e..55d2aad 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -389,7 +389,8 @@ class Constraints(object):
                 parameters = [p for i, p in enumerate(parameters)
                               if i not in inactive]
             d = OrderedDict()
-            d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
+            d[pname] = [[x.item() if isinstance(x, np.generic) else x for x in p]
+                        if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
                                               iterate=True, arraytolist=True)
             data.append(d)
-- 
2.43.0


From 07006f56fdf8fecb27b7faaeae05d1a74e3e8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 31/97] fix: revert keeping the Gaussian standard deviation of
 general gamma distributions

Very small standard deviations are meant to be treated as zero; done properly
in the following commit.
---
 flavio/statistics/probability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 3389caf..5577443 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1026,6 +1026,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
         if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
+            self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
@@ -1148,6 +1149,7 @@ class GeneralGammaCountingProcess(GeneralGammaDistributionPositive):
             self.counts_total = counts_total
         self.background_std = background_std
         if self.background_std/np.sqrt(self.counts_total+1) < 1/100:
+            self.background_std = 0
             warnings.warn("For vanishing or very small background standard "
                           "deviation, it is safer to use GammaCountingProcess "
                           "instead of GeneralGammaCountingProcess to avoid "
-- 
2.43.0


From 62d0cae46018e3fbee9e14199b6c8f3b8caeaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 32/97] fix: very small Gaussian standard deviations in general
 gamma distributions

They are set to zero to avoid numerical instability, but this happened after
the distribution had been constructed, so that it could contain NaNs, and the
attribute did not match the distribution.
---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5577443..32180f1 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1024,13 +1024,13 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.loc = loc
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
-        x, y = self._get_xy()
         if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
                           "instability.")
+        x, y = self._get_xy()
         super().__init__(x=x, y=y)
 
     def __repr__(self):
-- 
2.43.0


From 97876ea1298d90453d7808e6ad206e2660254934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 33/97] fix: errors of GammaDistribution with a=1

---
 flavio/statistics/probability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 32180f1..9363755 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -629,6 +629,9 @@ class GammaDistribution(ProbabilityDistribution):
             logpdf_x_left = self.logpdf(x_left(a))
             logpdf_x_right = self.logpdf(x_right(a))
             return logpdf_x_left - logpdf_x_right
+        if diff_logpdf(0) >= 0:
+            # the PDF falls monotonically (a=1): the range starts at the boundary
+            return 0
         return scipy.optimize.brentq(diff_logpdf, 0,  1 - confidence_level-1e-6)
 
     def get_error_left(self, nsigma=1, **kwargs):
-- 
2.43.0


From 885e8f23ac480b63f26894c5f2e0b2a5e12aa81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 34/97] fix: plain numbers with a unicode minus sign as
 constraints

A dictionary instead of a list of distributions was returned.
---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index b30cdd2..dc16d2a 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -146,7 +146,7 @@ def constraints_from_string(constraint_string):
         # try again if the number is a float now
         try:
             float(constraint_string)
-            return {'central_value': float(constraint_string)}
+            return [DeltaDistribution(float(constraint_string))]
         except:
             pass
     if _pattern_upperlimit.match(constraint_string):
-- 
2.43.0


From 82dba9d81841e7af0a41550e24b8ba6bea0bfbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 35/97] fix: reject malformed errors in constraint strings
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Strings like '1 + 0.1', '1 +- 0.1 - 0.2', or '5 ± 1 m 2' were accepted and
the errors not understood silently dropped.
---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index dc16d2a..e9d1e2a 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -6,7 +6,7 @@ _pattern_upperlimit = re.compile(r"^\s*<\s*([-+]?\d+\.?\d*)([eE][-+]?\d+)?\s*@\s
 # for strings of the form '1.67(3)(5) 1e-3'
 _pattern_brackets = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:\(\s*\d+\.?\d*\s*\)\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
 # for strings of the form '(1.67 +- 0.3 +- 0.5) * 1e-3'
-_pattern_plusminus = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:[+\-±\\pm]+\s*\d+\.?\d*\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
+_pattern_plusminus = re.compile(r"^\s*\(?\s*(-?\d+\.?\d*)\s*((?:(?:(?:±|\\pm|\+\-)\s*\d+\.?\d*|\+\s*\d+\.?\d*\s*\-\s*\d+\.?\d*)\s*)+)\)?\s*\*?\s*(?:(?:e|E|1e|1E|10\^)\(?([+-]?\d+)\)?)?$")
 # for strings of the form '(1.67 */ 1.5) * 1e-3'
 _pattern_timesby = re.compile(r"^\s*([-+]?\d+\.?\d*)([eE][-+]?\d+)?\s*(?:\*/|/\*)\s*(\d+\.?\d*)$")
 # for strings of the form '[1, 5] 1e-3'
-- 
2.43.0


From 02c870b3bd49bd71830c55236b7c9d6cf371d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 36/97] fix: get_1d_errors_rightleft only considers constraints
 in force

A constraint that had been removed or replaced, but whose class does not
implement errors, made the method raise.
---
 flavio/classes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 55d2aad..1863a50 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -278,15 +278,15 @@ class Constraints(object):
         r"""Get the left and right error for every parameter/observable
         defined such that it contains 68% probability on each side of the
         central value."""
-        errors_left = [constraint.error_left for constraint, _ in self._constraints]
-        errors_right = [constraint.error_right for constraint, _ in self._constraints]
+        # first, compute the errors of every constraint that is in force
+        errors = {constraint: (np.ravel([constraint.error_right]),
+                               np.ravel([constraint.error_left]))
+                  for constraint in {c for _, c in self._parameters.values()}}
         error_dict = {}
         # now, iterate over the parameters
-        for parameter, constraints in self._parameters.items():
-            num, constraint = constraints
-            idx = ([constraint for constraint, _ in self._constraints]).index(constraint)
-            error_dict[parameter] = (np.ravel([errors_right[idx]])[num],
-                                     np.ravel([errors_left[idx]])[num])
+        for parameter, (num, constraint) in self._parameters.items():
+            errors_right, errors_left = errors[constraint]
+            error_dict[parameter] = (errors_right[num], errors_left[num])
         return error_dict
 
     def get_logprobability_single(self, parameter, value, delta=False):
-- 
2.43.0


From 0facd0833d4cc93afb44cbd51c9b7ea97e67b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 37/97] fix: draws of copied gamma distributions

Frozen scipy distributions that are deep-copied (e.g. by Constraints.copy)
get a private copy of the state of the random number generator, so copies
and original gave identical instead of independent draws and ignored
np.random.seed.
---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9363755..1a89a7d 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -606,7 +606,7 @@ class GammaDistribution(ProbabilityDistribution):
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
     def get_random(self, size=None):
-        return self.scipy_dist.rvs(size=size)
+        return self.scipy_dist.rvs(size=size, random_state=np.random)
 
     def cdf(self, x):
         return self.scipy_dist.cdf(x)
@@ -687,7 +687,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
             return r[:size]
 
     def _get_random(self, size):
-        r = self.scipy_dist.rvs(size=size)
+        r = self.scipy_dist.rvs(size=size, random_state=np.random)
         return r[(r >= 0)]
 
     def cdf(self, x):
-- 
2.43.0


From 69c833a766bd2c1dc3bcd2e35a87cfccb6d0d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 38/97] fix: lepton-averaged FL and q2-integrated observables
 in B->Vlnu

FL, FLtot, FLttot, AFBtot and I3tot with lepton 'l' always raised a KeyError.
---
 flavio/physics/bdecays/bvlnu.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..08a8c88 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,6 +168,12 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
+    if lep == 'l':
+        # average of e and mu in numerator and denominator!
+        num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+        if num == 0:
+            return 0
+        return num / dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
     if not kinem_allowed(q2, par, B, V, lep):
         return 0
     J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
@@ -182,14 +188,18 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     return num / denom
 
 def Itot_norm(fct_J, wc_obj, par, B, V, lep):
-    def fct(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    num = 0
+    den = 0
+    # average of e and mu in numerator and denominator for lep='l'!
+    for _l in (['e', 'mu'] if lep == 'l' else [lep]):
+        def fct(q2):
+            J = get_angularcoeff(q2, wc_obj, par, B, V, _l)
+            return fct_J(J)
+        num += obs_q2int(fct, wc_obj, par, B, V, _l)
+        def fct_den(q2):
+            J = get_angularcoeff(q2, wc_obj, par, B, V, _l)
+            return dGdq2(J)
+        den += obs_q2int(fct_den, wc_obj, par, B, V, _l)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -342,6 +352,9 @@ def FL_binned_function(B, V, lep):
 
 def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            return (BR_tot(wc_obj, par, B, V, lep, A='L')
+                    / BR_tot(wc_obj, par, B, V, lep, A=None))
         mB = par['m_'+B]
         mV = par['m_'+V]
         ml = par['m_'+lep]
-- 
2.43.0


From 2907802cc9c6de8c35280eb86d7b8a840928e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 39/97] fix: lepton-averaged K->pilnu observables

The observables with lepton 'l' always raised a KeyError.
---
 flavio/physics/kdecays/kpilnu.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..c888eca 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -66,6 +66,9 @@ def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     return flavio.math.integrate.nintegrate(integrand, q2min, q2max)
 
 def BR_tot(wc_obj, par, K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (BR_tot(wc_obj, par, K, P, 'e') + BR_tot(wc_obj, par, K, P, 'mu'))/2
     mK = par['m_'+K]
     mP = par['m_'+P]
     ml = par['m_'+lep]
@@ -78,6 +81,9 @@ def BR_tot_function(K, P, lep):
 
 
 def logC(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     ml = par['m_' + lep]
@@ -94,6 +100,9 @@ def logC(wc_obj, par, lep):
 
 
 def RT(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu'))/2
     mK = par['m_KL']
     mP = par['m_pi+']
     scale = par['m_rho0']
-- 
2.43.0


From 5d9cf777f07bc4e902ebef89d1d887775cffa193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 40/97] fix: lepton-averaged Lambda->plnu observable

The observable with lepton 'l' always raised a KeyError.
---
 flavio/physics/kdecays/lambdaplnu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..f31f56f 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,10 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, lep='e', nu='e')
+                    + g1_f1(wc_obj, par, lep='mu', nu='mu'))/2
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From df9a70fd9935e1c0dc93475004e6ec97a773c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 41/97] fix: prediction of KS->emu,mue

The observable always raised an UnboundLocalError.
---
 flavio/physics/kdecays/kll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index a2b0b04..31c5b17 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -60,7 +60,7 @@ def amplitudes_eff(par, wc, K, l1, l2, ld=True):
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
-    if K == 'KS' and l1 == l2:
+    if K == 'KS':
         Peff = P.imag
         Seff = S.real + SLD
     if K == 'KL':
-- 
2.43.0


From 11330156e0fbb6a195a250edf2f08f3c08492f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 42/97] fix: observables specified as dictionaries

Observable.argument_format returned the very dictionary it was given, so
e.g. sm_covariance modified its input and failed from the second parameter
point on, and silently ignored arguments the observable does not have.
---
 flavio/classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 1863a50..a1b9de6 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -621,11 +621,13 @@ class Observable(NamedInstanceClass):
                 d[a] = obs[i + 1]
         elif isinstance(obs, dict):
             args = cls[obs['name']].arguments
+            if set(obs) != {'name', *(args or [])}:
+                raise ValueError("Wrong arguments for {}".format(obs['name']))
             if args is None:
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = obs.copy()
         if format == 'tuple':
             return t
         elif format == 'list':
-- 
2.43.0


From e84ee3071c540c5518863d6733eb252ac9650894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 43/97] fix: stale cache of Wilson instances used in
 predictions

Setting the CKM parameters also changes the options of the Wilson instance
passed to the prediction, but its cache was kept. Hence results obtained with
other CKM parameters, e.g. from calling match_run before, were used from the
second prediction on.
---
 flavio/physics/eft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..c611e59 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -173,6 +173,9 @@ class WilsonCoefficients(wilson.Wilson):
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
         if fwc.get_option('parameters') != _ckm_options:
             fwc.set_option('parameters', _ckm_options)
+            # as the options are shared with w, results in the cache of w
+            # that were obtained with other parameters must not be used any more
+            w._cache = fwc._cache
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From e8b3e9ebd94edee8a60caf2a81edab828f732930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 44/97] fix: Lambdab->Lambda form factors modifying the
 caller's parameters

---
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..7e1fb9f 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,6 +50,8 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
+    # (on a copy: the dictionary belongs to the caller)
+    par = par.copy()
     par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
     par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-- 
2.43.0


From 0c4036b1b8b6ff3e3d7ab0005ff59e3083c959c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 45/97] fix: B->V BSZ form factors modifying the caller's
 parameters

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..dd7f388 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,6 +50,8 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
+    # (on a copy: the dictionary belongs to the caller)
+    par = par.copy()
     par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
     par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
-- 
2.43.0


From 38de8445d03140f7880ae77935bf95c5a670915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 46/97] fix: error for observables specified as dictionaries
 with missing arguments

---
 flavio/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index a1b9de6..98ed26d 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -621,12 +621,12 @@ class Observable(NamedInstanceClass):
                 d[a] = obs[i + 1]
         elif isinstance(obs, dict):
             args = cls[obs['name']].arguments
-            if set(obs) != {'name', *(args or [])}:
-                raise ValueError("Wrong arguments for {}".format(obs['name']))
             if args is None:
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
+            if set(obs) != {'name', *(args or [])}:
+                raise ValueError("Wrong arguments for {}".format(obs['name']))
             d = obs.copy()
         if format == 'tuple':
             return t
-- 
2.43.0


From c723744aff3770366f9f9f9976644b08ce86607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 47/97] fix: B->Pnunu observables outside the kinematic range

---
 flavio/physics/bdecays/bpnunu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/bpnunu.py b/flavio/physics/bdecays/bpnunu.py
index 33b2496..b916051 100644
--- a/flavio/physics/bdecays/bpnunu.py
+++ b/flavio/physics/bdecays/bpnunu.py
@@ -36,6 +36,8 @@ def helicity_amps(q2, wc_obj, par, B, P, nu1, nu2):
 def bpnunu_obs(function, q2, wc_obj, par, B, P, nu1, nu2):
     mB = par['m_'+B]
     mP = par['m_'+P]
+    if q2 <= 0 or q2 > (mB-mP)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, P, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
-- 
2.43.0


From c5956db76c61309b9b23f14757aadfae90882fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 48/97] fix: B->Vnunu observables outside the kinematic range

---
 flavio/physics/bdecays/bvnunu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/bvnunu.py b/flavio/physics/bdecays/bvnunu.py
index d479b72..ea836ad 100644
--- a/flavio/physics/bdecays/bvnunu.py
+++ b/flavio/physics/bdecays/bvnunu.py
@@ -37,6 +37,8 @@ def helicity_amps(q2, wc_obj, par, B, V, nu1, nu2):
 def bvnunu_obs(function, q2, wc_obj, par, B, V, nu1, nu2):
     mB = par['m_'+B]
     mV = par['m_'+V]
+    if q2 <= 0 or q2 > (mB-mV)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, V, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
-- 
2.43.0


From c501d623bdcf44debe2a94636978ea58d6865038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 49/97] fix: CKM matrix for gamma outside the first quadrant

---
 flavio/physics/ckm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/ckm.py b/flavio/physics/ckm.py
index 976b429..02d6580 100644
--- a/flavio/physics/ckm.py
+++ b/flavio/physics/ckm.py
@@ -21,7 +21,9 @@ def ckm_standard(t12, t13, t23, delta):
 
 @np.vectorize
 def tree_to_wolfenstein(Vus, Vub, Vcb, gamma):
-    return ckmutil.ckm.tree_to_wolfenstein(Vus, Vub, Vcb, gamma)
+    # the expansion to second order is exact up to O(1e-15) and, in contrast to
+    # the default of ckmutil, valid in all quadrants of gamma
+    return ckmutil.ckm.tree_to_wolfenstein(Vus, Vub, Vcb, gamma, delta_expansion_order=2)
 
 @lru_cache(maxsize=2)
 def ckm_wolfenstein(laC, A, rhobar, etabar):
@@ -29,11 +31,12 @@ def ckm_wolfenstein(laC, A, rhobar, etabar):
 
 @lru_cache(maxsize=2)
 def ckm_tree(Vus, Vub, Vcb, gamma):
-    return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)
+    # cf. tree_to_wolfenstein
+    return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma, delta_expansion_order=2)
 
 @lru_cache(maxsize=2)
 def ckm_beta_gamma(Vus, Vcb, beta, gamma):
-    return ckmutil.ckm.ckm_beta_gamma(Vus, Vcb, beta, gamma)
+    return ckmutil.ckm.ckm_beta_gamma(Vus, Vcb, beta, gamma, delta_expansion_order=2)
 
 # Auxiliary Quantity instance
 a = AuxiliaryQuantity(name='CKM matrix')
-- 
2.43.0


From 385df7ae74cacc850da6c89543828498a35cf114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 50/97] fix: CP conjugation with Wolfenstein and beta-gamma
 parametrization of the CKM matrix

---
 flavio/physics/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..1519ce5 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,10 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are `gamma`, `delta`,
+    `etabar`, and `beta` (the CKM phase in the tree, standard, Wolfenstein, and
+    beta-gamma parametrization)."""
+    cp_odd = ['gamma', 'delta', 'etabar', 'beta']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0


From c0cb84ae29bcb32a96d44b89ca279e2489b0fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 51/97] fix: CP conjugation of subleading hadronic corrections
 in b->sll decays

---
 flavio/physics/bdecays/bpll_subleading.py            | 4 ++--
 flavio/physics/bdecays/bvll/subleading.py            | 4 ++++
 flavio/physics/bdecays/lambdablambdall_subleading.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_subleading.py b/flavio/physics/bdecays/bpll_subleading.py
index 4d9a7c4..ce62c9b 100644
--- a/flavio/physics/bdecays/bpll_subleading.py
+++ b/flavio/physics/bdecays/bpll_subleading.py
@@ -71,7 +71,7 @@ def fct_deltaC9_polynomial(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_polynomial(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_polynomial(q2, par, B, P)
     return fct
 
 def fct_deltaC9_constant(B, P):
@@ -79,7 +79,7 @@ def fct_deltaC9_constant(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_constant(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_constant(q2, par, B, P)
     return fct
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
diff --git a/flavio/physics/bdecays/bvll/subleading.py b/flavio/physics/bdecays/bvll/subleading.py
index 632ae6d..799007d 100644
--- a/flavio/physics/bdecays/bvll/subleading.py
+++ b/flavio/physics/bdecays/bvll/subleading.py
@@ -85,6 +85,8 @@ class HelicityAmpsDeltaC_9_shift(HelicityAmpsDeltaC):
 def fct_deltaC7C7p_polynomial(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_77p_polynomial(B, V, par, q2)()
     return fct
 
@@ -92,6 +94,8 @@ def fct_deltaC7C7p_polynomial(B, V):
 def fct_deltaC9_constant(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_9_shift(B, V, par, q2)()
     return fct
 
diff --git a/flavio/physics/bdecays/lambdablambdall_subleading.py b/flavio/physics/bdecays/lambdablambdall_subleading.py
index 6953d8a..1745901 100644
--- a/flavio/physics/bdecays/lambdablambdall_subleading.py
+++ b/flavio/physics/bdecays/lambdablambdall_subleading.py
@@ -84,7 +84,7 @@ def fct_deltaC9_constant(wc_obj, par_dict, q2, cp_conjugate):
     par = par_dict.copy()
     if cp_conjugate:
         par = conjugate_par(par)
-    return transversity_amps_deltaC9_constant(q2, par_dict)
+    return transversity_amps_deltaC9_constant(q2, par)
 
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From 9db2d0ee8c9858679039e9330dfc0cad759fcb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 52/97] fix: conjugate Wilson coefficients in CP-conjugate
 Lambdab->Lambda(1520)ll amplitudes

---
 flavio/physics/bdecays/lambdablambda1520ll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
-- 
2.43.0


From ca920ebd1f18a38f406f2ff9cb0b3096197b4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 53/97] fix: constant term of the P-Ptilde kinematic function
 in V->ll'gamma

Without it the function tends to -1/12 at threshold and the branching ratio
becomes negative for some values of the coefficients.
---
 flavio/physics/quarkonium/Vllgamma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 40deea9..43ad41d 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -77,13 +77,13 @@ def Ftilde_S(y):
 def Fhat_P(y):
     mu=y**2
     if mu==0:
-        return 0.
-    return mu*(-8+8*mu**2-mu**3 - 12*mu*np.log(mu))/12.
+        return 1./12
+    return (1-8*mu+8*mu**3-mu**4-12*mu**2*np.log(mu))/12.
 def Fhat_S(y):
     mu=y**2
     if mu==0:
         return 1./12
-    return Fhat_P(y) + 1./12
+    return (1-8*mu+8*mu**3-mu**4-12*mu**2*np.log(mu))/12.
 def F_PA(y):
     if y==0:
         return 0.
-- 
2.43.0


From f414d1026ba19c9c81143c0a77f440feabb19c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 54/97] fix: flavour indices of the dipole coefficient in
 V->ll' and V->ll'gamma

The dipole operator has the same lepton flavour structure as the tensor
operator carrying the same indices.
---
 flavio/physics/quarkonium/Vll.py      | 4 ++--
 flavio/physics/quarkonium/Vllgamma.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/quarkonium/Vll.py b/flavio/physics/quarkonium/Vll.py
index 5d835ed..e8a82bb 100644
--- a/flavio/physics/quarkonium/Vll.py
+++ b/flavio/physics/quarkonium/Vll.py
@@ -36,8 +36,8 @@ def getVT_lfv(wc_obj,par,V,Q,l1,l2):
         ll=wc_sector[(l1,l2)]
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     if ll==l2+l1: 
         VL=VL.conjugate()
         VR=VR.conjugate()
diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 43ad41d..e35f10e 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -34,8 +34,8 @@ def getWC_lfv(wc_obj,par,V,Q,l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
         ll=wc_sector[(l1,l2)]
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     SR=2.*mV*fV*(wc['CSRR_'+l1+l2+qq]+wc['CSRL_'+l1+l2+qq])
     SL=2.*mV*fV*(wc['CSRL_'+l2+l1+qq]+wc['CSRR_'+l2+l1+qq]).conjugate()   
     PR=2.*mV*fV*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])
-- 
2.43.0


From 691274628ee4c030a602eaeb0ed3573bf537c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 55/97] fix: complex conjugation in interference terms of
 B->X_c l nu

---
 flavio/physics/bdecays/bxlnu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bxlnu.py b/flavio/physics/bdecays/bxlnu.py
index 963b10c..859bd15 100644
--- a/flavio/physics/bdecays/bxlnu.py
+++ b/flavio/physics/bdecays/bxlnu.py
@@ -37,17 +37,17 @@ def _BR_BXclnu(par, wc_obj, lep, nu):
     # of the scalar operators
     Gamma_LO = GF**2 * mb**5 / 192. / pi**3 * abs(Vcb)**2
     r_WC = (   g(xc, xl)      * (abs(wc['VL'])**2 + abs(wc['VR'])**2)
-             - gLR(xc, xl)    * (wc['VL']*wc['VR']).real
+             - gLR(xc, xl)    * (wc['VL']*wc['VR'].conjugate()).real
              + g(xc, xl)/4.   * (abs(wc['SR'])**2 + abs(wc['SL'])**2)
-             + gLR(xc, xl)/2. * (wc['SR']*wc['SL']).real
+             + gLR(xc, xl)/2. * (wc['SR']*wc['SL'].conjugate()).real
              + 12*g(xc, xl)   * abs(wc['T'])**2
              # the following terms vanish for vanishing lepton mass
-             + gVS(xc, xl)    * ((wc['VL']*wc['SR']).real
-                                       + (wc['VR']*wc['SL']).real)
-             + gVSp(xc, xl)   * ((wc['VL']*wc['SL']).real
-                                       + (wc['VR']*wc['SR']).real)
-             - 12*gVSp(xc, xl)* (wc['VL']*wc['T']).real
-             + 12*gVS(xc, xl) * (wc['VR']*wc['T']).real
+             + gVS(xc, xl)    * ((wc['VL']*wc['SR'].conjugate()).real
+                                       + (wc['VR']*wc['SL'].conjugate()).real)
+             + gVSp(xc, xl)   * ((wc['VL']*wc['SL'].conjugate()).real
+                                       + (wc['VR']*wc['SR'].conjugate()).real)
+             - 12*gVSp(xc, xl)* (wc['VL']*wc['T'].conjugate()).real
+             + 12*gVS(xc, xl) * (wc['VR']*wc['T'].conjugate()).real
            )
     # eq. (26) of arXiv:1107.3100 + corrections (P. Gambino, private communication)
     flavio.citations.register("Gambino:2011cq")
-- 
2.43.0


From 34a1ee4d2aafd9f0c68cfbfb61d538a2aaaed378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 56/97] fix: interference of K0 and anti-K0 amplitudes in LFV
 K_L,S->ll' decays

For l1 != l2, the amplitudes of K0 and anti-K0 decaying to the same final state
are governed by different coefficients.
---
 flavio/physics/kdecays/kll.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index 31c5b17..d76d71e 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -54,18 +54,21 @@ def amplitudes_LD(par, K, l):
 
 def amplitudes_eff(par, wc, K, l1, l2, ld=True):
     r"""Effective amplitudes entering the $K\to\ell_1^+\ell_2^-$ observables."""
+    # amplitudes of the decay of K0 to l1 l2 ...
     P, S = amplitudes(par, wc, l1, l2)
+    # ... and of the conjugate decay of K0 to l2 l1
+    Pc, Sc = amplitudes(par, wc, l2, l1)
     if l1 != l2 or not ld:
         SLD = 0
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
     if K == 'KS':
-        Peff = P.imag
-        Seff = S.real + SLD
+        Peff = (P - Pc.conjugate()) / 2j
+        Seff = (S + Sc.conjugate()) / 2 + SLD
     if K == 'KL':
-        Peff = P.real + PLD
-        Seff = S.imag
+        Peff = (P + Pc.conjugate()) / 2 + PLD
+        Seff = (S - Sc.conjugate()) / 2j
     return Peff, Seff
 
 
@@ -81,6 +84,8 @@ def get_wc(wc_obj, par, l1, l2):
         wcsm = {'C10_sd' + l1 + l2: _c['C10_t'] + xi_c / xi_t * _c['C10_c']}
     else:
         wcsm = {}
+        # the amplitude of the conjugate kaon involves the conjugate operators
+        wcnp = add_dict((wcnp, wc_obj.get_wc('sd' + l2 + l1, scale, par)))
 
     return add_dict((wcsm, wcnp))
 
-- 
2.43.0


From 8b58e87a2b7bee03c17000314867f4426f5c2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 57/97] fix: conjugate vector coefficients in P->ll' for
 reversed lepton order

As already done in V->ll'.
---
 flavio/physics/quarkonium/Pll.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..4282cb7 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -34,8 +34,14 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
     else:
         ll=wc_sector[(l1,l2)]
     aPfac=1j*aP*4.*np.pi/alphas
-    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml2* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] ))  
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml1* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] )) 
+    AR=wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll]
+    AL=wc['CVLR_'+ll+qq] - wc['CVLL_'+ll+qq]
+    if ll==l2+l1:
+        # the vector coefficients are defined for the reversed order of the leptons
+        AR=AR.conjugate()
+        AL=AL.conjugate()
+    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*AR+ml2*AL)  
+    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*AR+ml1*AL) 
     return SL,SR
 
 
-- 
2.43.0


From 673ee8fc6241d2e156e1e6465d8cd71cf5766186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 58/97] fix: register flavour-summed P->ll' and S->ll'
 observables for all lepton pairs

The loop reused the lepton flavours of the previous loop.
---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 4282cb7..7662616 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -103,7 +103,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From e8a697c0bf59faa07c8110f2cedeb3f1da22acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 59/97] fix: get_wilson with current numpy (np.complex was
 removed)

---
 flavio/physics/running/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..cec6afb 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -290,7 +290,7 @@ def make_wilson_rge_derivative(adm):
         alpha_s = x[-2]
         alpha_e = x[-1]
         c_real = x[:-2]
-        c = c_real.view(np.complex)
+        c = c_real.view(complex)
         d_alpha = betafunctions.beta_qcd_qed([alpha_s, alpha_e], mu, nf)
         d_c = np.dot(adm(nf, alpha_s, alpha_e).T, c)/mu
         d_c_real = d_c.view(float)
@@ -311,7 +311,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From d40caa09ed770cabeeaa6d16ea75fd796ede8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 60/97] fix: stale cached predictions for different parameters
 with the same hash

---
 flavio/statistics/likelihood.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..67f8525 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -142,8 +142,10 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
+        # compute a key from the function's arguments used for caching. Compare
+        # the parameter values themselves, as different values can have
+        # the same hash (e.g. -1.0 and -2.0)
+        arg_hash = (frozenset(par_dict.items()), hash(wc_obj))
         if arg_hash != self._predictions_cache_hash:
             all_predictions = {}
             for observable in self.observables:
-- 
2.43.0


From 61ec76ef66d4014f2eb9bc2b6127c11ff12c879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 61/97] fix: dumping of Likelihood instances with parameters

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 67f8525..e5c2eb6 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -284,8 +284,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From 7262e8346081c8f66492873eee3f514ec9f30b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 62/97] fix: count every constraint when a distribution is used
 more than once

---
 flavio/classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 98ed26d..61a0fe3 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -338,9 +338,9 @@ class Constraints(object):
             if len(parameters) == 1:
                 # 1D constraints should have a scalar, not a length-1 array
                 if not delta:
-                    prob_dict[constraint] = constraint.logpdf(x[0])
+                    logprob = constraint.logpdf(x[0])
                 else:
-                    prob_dict[constraint] = constraint.delta_logpdf(x[0])
+                    logprob = constraint.delta_logpdf(x[0])
             else:
                 # for multivariate distributions
                 if len(x) == len(parameters):
@@ -350,9 +350,11 @@ class Constraints(object):
                     exclude = tuple(i for i, p in enumerate(parameters)
                                     if p not in p_cons)
                 if not delta:
-                    prob_dict[constraint] = constraint.logpdf(x, exclude=exclude)
+                    logprob = constraint.logpdf(x, exclude=exclude)
                 else:
-                    prob_dict[constraint] = constraint.delta_logpdf(x, exclude=exclude)
+                    logprob = constraint.delta_logpdf(x, exclude=exclude)
+            # the same distribution can constrain several sets of parameters
+            prob_dict[constraint] = prob_dict.get(constraint, 0) + logprob
         return prob_dict
 
     def copy(self):
-- 
2.43.0


From 3e3fb91a416c466e125075d79f5905601b87e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 63/97] fix: keep modifications when copying an AwareDict

---
 flavio/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..500d3db 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -118,7 +118,7 @@ class AwareDict(dict):
         return dict.__getitem__(self, key)
 
     def __copy__(self):
-        cp = type(self)(self.d)
+        cp = type(self)(self)
         cp.akeys = self.akeys
         return cp
 
-- 
2.43.0


From bac57aaebb276e9b6dfd4d51ea2b3cff8e00fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 64/97] fix: citations of cached matrix elements

---
 flavio/physics/bdecays/matrixelements.py | 36 ++++++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..aec5a8b 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -78,10 +77,14 @@ def F_17(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -90,12 +93,16 @@ def F_19(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -104,10 +111,14 @@ def F_27(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -116,7 +127,12 @@ def F_29(muh, z, sh):
     - `z` is $z=m_c^2/m_b^2$,
     - `sh` is $\hat s=q^2/m_b^2$.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +171,15 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +193,15 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
+    # register outside the cached function to cite the paper on every call
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
-- 
2.43.0


From a818f3255790776e30f9583d07d9bcf707200389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 65/97] fix: start new tries of minimize_robust from the end
 points of previous tries

---
 flavio/math/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..afd6009 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -35,11 +35,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +49,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0


From 2aae95e247a31493f9fa55beb4eaad31a56f868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 66/97] fix: significances beyond eight standard deviations

---
 flavio/statistics/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/functions.py b/flavio/statistics/functions.py
index b638afa..02fd3eb 100644
--- a/flavio/statistics/functions.py
+++ b/flavio/statistics/functions.py
@@ -22,8 +22,8 @@ def delta_chi2(nsigma, dof):
         # that's trivial
         return nsigma**2
     chi2_ndof = scipy.stats.chi2(dof)
-    cl_nsigma = confidence_level(nsigma)
-    return chi2_ndof.ppf(cl_nsigma)
+    # use the tail probability to be precise for large significances
+    return chi2_ndof.isf(2*scipy.stats.norm.sf(nsigma))
 
 def pull(delta_chi2, dof):
     r"""Compute the pull in Gaussian standard deviations corresponding to
@@ -36,10 +36,10 @@ def pull(delta_chi2, dof):
         # that's trivial
         return sqrt(abs(delta_chi2))
     chi2_ndof = scipy.stats.chi2(dof)
-    cl_delta_chi2 = chi2_ndof.cdf(delta_chi2)
-    return scipy.stats.norm.ppf(0.5+cl_delta_chi2/2)
+    # use the tail probability to be precise for large significances
+    return scipy.stats.norm.isf(chi2_ndof.sf(delta_chi2)/2)
 
 def pvalue(chi2, dof):
     r"""Compute the $p$-value corresponding to a $\chi^2$ with `dof` degrees
     of freedom."""
-    return 1 - scipy.stats.chi2.cdf(chi2, dof)
+    return scipy.stats.chi2.sf(chi2, dof)
-- 
2.43.0


From 0bb4fa438e8e3693fa0db0482dd56640b51d0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:25 +0000
Subject: [PATCH 67/97] fix: citations of cached conversions of quark masses

---
 flavio/physics/running/running.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index cec6afb..4906b74 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -1,5 +1,6 @@
 """Functions to solve the renormalization group equations (RGEs) numerically."""
 
+import flavio
 from flavio.physics.running import betafunctions
 from flavio.physics.running import masses
 from scipy.integrate import odeint
@@ -201,6 +202,9 @@ def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
+    # register outside the cached function to cite the papers on every call
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
 
 
@@ -229,6 +233,9 @@ def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
+    # register outside the cached function to cite the papers on every call
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
 
 
-- 
2.43.0


From de042c5c9fc202f73f370bc33d9e567dae607ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 68/97] fix: missing parameters of the BSZ parametrization of
 B->K form factors

---
 flavio/data/parameters_metadata.yml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/flavio/data/parameters_metadata.yml b/flavio/data/parameters_metadata.yml
index a12bb46..762c7b2 100644
--- a/flavio/data/parameters_metadata.yml
+++ b/flavio/data/parameters_metadata.yml
@@ -1291,6 +1291,30 @@ B->K BCL a1_fT:
 B->K BCL a2_fT:
   tex: $a_2^{(T)}$
   description: BCL $B\to K$ form factor parametrization coefficient $a_2$ of $f_T$
+B->K BSZ a0_f+:
+  tex: $a_0^{f_+}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_0$ of $f_+$
+B->K BSZ a1_f+:
+  tex: $a_1^{f_+}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_1$ of $f_+$
+B->K BSZ a2_f+:
+  tex: $a_2^{f_+}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_2$ of $f_+$
+B->K BSZ a1_f0:
+  tex: $a_1^{f_0}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_1$ of $f_0$
+B->K BSZ a2_f0:
+  tex: $a_2^{f_0}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_2$ of $f_0$
+B->K BSZ a0_fT:
+  tex: $a_0^{f_T}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_0$ of $f_T$
+B->K BSZ a1_fT:
+  tex: $a_1^{f_T}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_1$ of $f_T$
+B->K BSZ a2_fT:
+  tex: $a_2^{f_T}$
+  description: BSZ $B\to K$ form factor parametrization coefficient $a_2$ of $f_T$
 
 # Parameters for Bs->K form factors in the BCL parametrization
 Bs->K BCL m0:
-- 
2.43.0


From ebbb01359396d7583cc5612006079d63d96506a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:15 +0000
Subject: [PATCH 69/97] fix: kinematic constraint f+(0)=f0(0) in the BCL
 parametrization

---
 flavio/physics/bdecays/formfactors/b_p/bcl.py | 2 +-
 flavio/physics/ddecays/formfactors/bcl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bcl.py b/flavio/physics/bdecays/formfactors/b_p/bcl.py
index d335f9d..f80aa25 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bcl.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bcl.py
@@ -57,7 +57,7 @@ def ff(process, q2, par, n=3, t0=None):
         a['f0'] = [ par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1) ]
         fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
         f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-        an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+        an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
         a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = chL * pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
diff --git a/flavio/physics/ddecays/formfactors/bcl.py b/flavio/physics/ddecays/formfactors/bcl.py
index 1bd93cd..7f01a00 100644
--- a/flavio/physics/ddecays/formfactors/bcl.py
+++ b/flavio/physics/ddecays/formfactors/bcl.py
@@ -37,7 +37,7 @@ def ff(process, q2, par, n=3, t0=None):
     a['f0'] = [par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1)]
     fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
     f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-    an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+    an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
     a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
-- 
2.43.0


From c0a51ab4eca4ceda140014edb82a26ac2c038e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:22 +0000
Subject: [PATCH 70/97] fix: Implementation.show_all lists all implementations
 of a quantity

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 61a0fe3..8ac8bcc 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -792,7 +792,7 @@ class Implementation(NamedInstanceClass):
             inst = cls[name]
             quant = inst.quantity
             descr = inst.description
-            all_dict[quant] = {name: descr}
+            all_dict.setdefault(quant, {})[name] = descr
         return all_dict
 
     def __init__(self, name, quantity, function):
-- 
2.43.0


From a530e3579ecdb59812e79d66fb861c4a65b03e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 71/97] fix: range and number of points of plots of
 differential predictions

---
 flavio/plots/plotfunctions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 6a044fd..1d40e80 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -87,7 +87,7 @@ def diff_plot_th(obs_name, x_min, x_max, wc=None, steps=100, scale_factor=1, **k
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 1:
         raise ValueError(r"Only observables that depend on a single parameter are allowed")
-    x_arr = np.arange(x_min, x_max, (x_max-x_min)/(steps-1))
+    x_arr = np.linspace(x_min, x_max, steps)
     if wc is None:
         wc = flavio.physics.eft._wc_sm # SM Wilson coefficients
         obs_arr = [flavio.sm_prediction(obs_name, x) for x in x_arr]
@@ -138,12 +138,8 @@ def diff_plot_th_err(obs_name, x_min, x_max, wc=None, steps=100,
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 1:
         raise ValueError(r"Only observables that depend on a single parameter are allowed")
-    step = (x_max-x_min)/(steps-1)
-    x_arr = np.arange(x_min, x_max+step, step)
-    step = (x_max-x_min)/(steps_err-1)
-    x_err_arr = np.arange(x_min, x_max+step, step)
-    # fix to avoid bounds_error in interp1d due to lack of numerical precision
-    x_err_arr[-1] = x_arr[-1]
+    x_arr = np.linspace(x_min, x_max, steps)
+    x_err_arr = np.linspace(x_min, x_max, steps_err)
     if wc is None:
         wc = flavio.physics.eft._wc_sm # SM Wilson coefficients
         obs_err_arr = [flavio.sm_uncertainty(obs_name, x, N=N, threads=threads) for x in x_err_arr]
-- 
2.43.0


From 0cd4d6c5a513e41c67785a06cb05e39ec9b2eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 72/97] fix: diff_plot_th_err modifies the dictionaries passed
 by the user

---
 flavio/plots/plotfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 1d40e80..dadc292 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -148,8 +148,8 @@ def diff_plot_th_err(obs_name, x_min, x_max, wc=None, steps=100,
         obs_err_arr = [flavio.np_uncertainty(obs_name, wc, x, N=N, threads=threads) for x in x_err_arr]
         obs_arr = [flavio.np_prediction(obs_name, wc, x) for x in x_arr]
     ax = plt.gca()
-    plot_args = plot_args or {}
-    fill_args = fill_args or {}
+    plot_args = dict(plot_args or {})
+    fill_args = dict(fill_args or {})
     if label is not None:
         plot_args['label'] = label
     if 'alpha' not in fill_args:
-- 
2.43.0


From 5ea822fda2a3055c538de90f0c507d9a2a523ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 73/97] fix: contour data truncated to integers if the first
 log likelihood is an integer

---
 flavio/plots/plotfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index dadc292..761f591 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -539,10 +539,10 @@ def likelihood_contour_data(
         raise ValueError("`yscale` must be 'linear' or 'log'.")
     x, y = np.meshgrid(_x, _y)
     if threads == 1:
-        @np.vectorize
-        def chi2_vect(x, y): # needed for evaluation on meshgrid
+        def chi2(x, y):
             return -2*log_likelihood([x,y])
-        z = chi2_vect(x, y)
+        # needed for evaluation on meshgrid
+        z = np.vectorize(chi2, otypes=[float])(x, y)
     else:
         xy = np.array([x, y]).reshape(2, steps**2).T
         pool = pool or Pool(threads)
-- 
2.43.0


From ea6db07e28125034ba0b1586dee17fb3496bbe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 74/97] fix: plot boundaries equal to zero in pdf_plot

---
 flavio/plots/plotfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 761f591..29e82c2 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -744,8 +744,8 @@ def pdf_plot(dist, x_min=None, x_max=None, fill=True, steps=500, normed=True, **
 
     The remaining parameters will be passed to `likelihood_plot`.
     """
-    _x_min = x_min or dist.support[0]
-    _x_max = x_max or dist.support[1]
+    _x_min = dist.support[0] if x_min is None else x_min
+    _x_max = dist.support[1] if x_max is None else x_max
     x = np.linspace(_x_min, _x_max, steps)
     try:
         y = dist.pdf(x)
-- 
2.43.0


From 3ee145065cb0bec62f4cdac4455d1d8fc308a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 75/97] fix: density_contour_joint draws into the axes it is
 given

---
 flavio/plots/plotfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 29e82c2..bee53a9 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -879,6 +879,7 @@ def density_contour_joint(x, y,
     # set up axes (unless they are already given)
     if ax_2d is None:
         ax_2d = plt.subplot(gs[1, 0])
+    plt.sca(ax_2d)
     # make the 2D density contour plot
     density_contour(x, y, col=col, color=color, **kwargs)
 
-- 
2.43.0


From 72fb71dc697aedbf74c1be6d67872a02a9169525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 76/97] fix: plots of experimental data return the values of
 all measurements

---
 flavio/plots/plotfunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index bee53a9..458e6d8 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -254,6 +254,7 @@ def bin_plot_exp(obs_name, col_dict=None, divide_binwidth=False, include_measure
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 2:
         raise ValueError(r"Only observables that depend on the two bin boundaries (and nothing else) are allowed")
+    y_all = [] # values of all points in the plot
     _experiment_labels = [] # list of experiments appearing in the plot legend
     bins = []
     for m_name, m_obj in flavio.Measurement.instances.items():
@@ -307,10 +308,11 @@ def bin_plot_exp(obs_name, col_dict=None, divide_binwidth=False, include_measure
                     kwargs_m['label'] = m_obj.experiment
                     _experiment_labels.append(m_obj.experiment)
             y = scale_factor * np.array(y)
+            y_all.extend(y)
             dy_lower = scale_factor * np.array(dy_lower)
             dy_upper = scale_factor * np.array(dy_upper)
             ax.errorbar(x, y, yerr=[dy_lower, dy_upper], xerr=dx, fmt='.', **kwargs_m)
-    return y, bins
+    return np.array(y_all), bins
 
 
 def diff_plot_exp(obs_name, col_dict=None, include_measurements=None,
@@ -345,6 +347,7 @@ def diff_plot_exp(obs_name, col_dict=None, include_measurements=None,
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 1:
         raise ValueError(r"Only observables that depend on a single variable are allowed")
+    y_all = [] # values of all points in the plot
     _experiment_labels = [] # list of experiments appearing in the plot legend
     xs = []
     for m_name, m_obj in flavio.Measurement.instances.items():
@@ -392,10 +395,11 @@ def diff_plot_exp(obs_name, col_dict=None, include_measurements=None,
                     kwargs_m['label'] = m_obj.experiment
                     _experiment_labels.append(m_obj.experiment)
             y = scale_factor * np.array(y)
+            y_all.extend(y)
             dy_lower = scale_factor * np.array(dy_lower)
             dy_upper = scale_factor * np.array(dy_upper)
             ax.errorbar(x, y, yerr=[dy_lower, dy_upper], fmt='.', **kwargs_m)
-    return y, xs
+    return np.array(y_all), xs
 
 
 def density_contour_data(x, y, covariance_factor=None, n_bins=None, n_sigma=(1, 2)):
-- 
2.43.0


From 5c6eefde64f2ff2ee0b45bcb27d5cbf216d5d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:35 +0000
Subject: [PATCH 77/97] fix: band_plot with a precalculated grid that is not
 square

---
 flavio/plots/plotfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 458e6d8..1811ebc 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -614,7 +614,7 @@ def band_plot(log_likelihood, x_min, x_max, y_min, y_max,
                       n_sigma=n_sigma, steps=steps, **data_kwargs)
     else:
         contour_kwargs = {}
-        nx, ny = kwargs['pre_calculated_z'].shape
+        ny, nx = kwargs['pre_calculated_z'].shape
         _x = np.linspace(x_min, x_max, nx)
         _y = np.linspace(y_min, y_max, ny)
         x, y = np.meshgrid(_x, _y)
-- 
2.43.0


From 866b50b18c661a4a2946ad0e836183be910b5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:10 +0000
Subject: [PATCH 78/97] fix: last point of interpolated plots replaced by zero
 due to rounding

---
 flavio/plots/plotfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 1811ebc..c891533 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -679,9 +679,9 @@ def contour(x, y, z, levels, *, z_min=None,
                          "the smallest `z` value on the grid.")
     z = z - z_min # subtract z minimum to make value of new z minimum 0
     if interpolation_factor > 1:
-        x = scipy.ndimage.zoom(x, zoom=interpolation_factor, order=1)
-        y = scipy.ndimage.zoom(y, zoom=interpolation_factor, order=1)
-        z = scipy.ndimage.zoom(z, zoom=interpolation_factor, order=interpolation_order)
+        x = scipy.ndimage.zoom(x, zoom=interpolation_factor, order=1, mode='nearest')
+        y = scipy.ndimage.zoom(y, zoom=interpolation_factor, order=1, mode='nearest')
+        z = scipy.ndimage.zoom(z, zoom=interpolation_factor, order=interpolation_order, mode='nearest')
     _contour_args = {}
     _contourf_args = {}
     color = get_color(col=col, color=color)
@@ -834,8 +834,8 @@ def pvalue_plot(x, y, fill_y=None, col=None, color=None, label=None,
     _plotargs.update(plotargs)
     ax.plot(x, y, **_plotargs)
     if fill_y is not None:
-        x_zoom = scipy.ndimage.zoom(x, zoom=10, order=1)
-        y_zoom = scipy.ndimage.zoom(y, zoom=10, order=1)
+        x_zoom = scipy.ndimage.zoom(x, zoom=10, order=1, mode='nearest')
+        y_zoom = scipy.ndimage.zoom(y, zoom=10, order=1, mode='nearest')
         ax.fill_between(x_zoom, 0, y_zoom,
             where=y_zoom > fill_y,
             **_fillargs)
-- 
2.43.0


From b29e3856f721010f9e4b3981815488cd28ce0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:10 +0000
Subject: [PATCH 79/97] fix: density contours for quantities of very different
 scale

---
 flavio/plots/plotfunctions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index c891533..6383dd2 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -438,12 +438,14 @@ def density_contour_data(x, y, covariance_factor=None, n_bins=None, n_sigma=(1,
     else:
         _covariance_factor = covariance_factor
 
-    cov = np.cov(dataset) * _covariance_factor**2
-    gaussian_kernel = scipy.stats.multivariate_normal(mean=[x_mean, y_mean], cov=cov)
+    # use normalized coordinates as the scales of x and y can be very different
+    scale = np.std(dataset, axis=1)
+    cov = np.corrcoef(dataset) * _covariance_factor**2
+    gaussian_kernel = scipy.stats.multivariate_normal(cov=cov)
 
     x_grid, y_grid = np.meshgrid(x_centers, y_centers)
     xy_grid = np.vstack([x_grid.ravel(), y_grid.ravel()])
-    f_gauss = gaussian_kernel.pdf(xy_grid.T)
+    f_gauss = gaussian_kernel.pdf((xy_grid.T - [x_mean, y_mean])/scale)
     f_gauss = np.reshape(f_gauss, (len(x_centers), len(y_centers))).T
 
     f = scipy.signal.fftconvolve(f_binned, f_gauss, mode='same').T
-- 
2.43.0


From 981b6d7380f160b8238e570757698bd723293fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 80/97] fix: misspelled INSPIRE keys of measurements

---
 flavio/data/measurements.yml | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index 1bd189b..587066e 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -2452,7 +2452,7 @@ CMS B->K*mumu 2013 combined with 2015:
 
 CMS B->K*mumu 2017 1-2:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 1
@@ -2467,7 +2467,7 @@ CMS B->K*mumu 2017 1-2:
 
 CMS B->K*mumu 2017 2-4.3:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 2
@@ -2482,7 +2482,7 @@ CMS B->K*mumu 2017 2-4.3:
 
 CMS B->K*mumu 2017 4.3-6:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 4.3
@@ -2497,7 +2497,7 @@ CMS B->K*mumu 2017 4.3-6:
 
 CMS B->K*mumu 2017 6-8.68:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 6
@@ -2512,7 +2512,7 @@ CMS B->K*mumu 2017 6-8.68:
 
 CMS B->K*mumu 2017 10.09-12.86:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 10.09
@@ -2527,7 +2527,7 @@ CMS B->K*mumu 2017 10.09-12.86:
 
 CMS B->K*mumu 2017 14.18-16:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 14.18
@@ -2542,7 +2542,7 @@ CMS B->K*mumu 2017 14.18-16:
 
 CMS B->K*mumu 2017 16-19:
   experiment: CMS
-  insipre: CMS:2017rzx
+  inspire: CMS:2017rzx
   values:
     - name: <P1>(B0->K*mumu)
       q2min: 16
-- 
2.43.0


From b6be6485cb68e324d4512d422f5b05a2c7e99989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 81/97] fix: metadata of parameters defined twice

---
 flavio/data/parameters_metadata.yml | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/flavio/data/parameters_metadata.yml b/flavio/data/parameters_metadata.yml
index 762c7b2..5bd5625 100644
--- a/flavio/data/parameters_metadata.yml
+++ b/flavio/data/parameters_metadata.yml
@@ -1469,12 +1469,6 @@ D->K BSZ a2_f+:
 D->K BSZ a2_f0:
   tex: $a_2^{f_0}$
   description: BSZ form factor parametrization coefficient $a_2$ of $f_0$
-D->K BSZ a1_f+:
-  tex: $a_1^{f_+}$
-  description: BSZ form factor parametrization coefficient $a_1$ of $f_+$
-D->K BSZ a1_f0:
-  tex: $a_1^{f_0}$
-  description: BSZ form factor parametrization coefficient $a_1$ of $f_0$
 D->K BSZ a0_fT:
   tex: $a_0^{f_T}$
   description: BSZ form factor parametrization coefficient $a_0$ of $f_T$
-- 
2.43.0


From 7237999eead96673792e08fffe8051db3106eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 82/97] fix: unbalanced delimiters in LaTeX strings

---
 flavio/data/parameters_metadata.yml | 10 +++++-----
 flavio/physics/bdecays/bpnunu.py    |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flavio/data/parameters_metadata.yml b/flavio/data/parameters_metadata.yml
index 5bd5625..f425b01 100644
--- a/flavio/data/parameters_metadata.yml
+++ b/flavio/data/parameters_metadata.yml
@@ -1923,7 +1923,7 @@ Sn Au:
   tex: $S^{(n)}$
   description: Scalar overlap integral with neutron distribution
 Vn Au:
-  tex: $V^{(n)$
+  tex: $V^{(n)}$
   description: Vector overlap integral with neutron distribution
 GammaCapture Au:
   tex: $\Gamma_\text{capture}(\phantom k^{197}_{79} \mathrm{Au})$
@@ -1942,7 +1942,7 @@ Sn Al:
   tex: $S^{(n)}$
   description: Scalar overlap integral with neutron distribution
 Vn Al:
-  tex: $V^{(n)$
+  tex: $V^{(n)}$
   description: Vector overlap integral with neutron distribution
 GammaCapture Al:
   tex: $\Gamma_\text{capture}(\phantom k^{27}_{13} \mathrm{Al})$
@@ -1961,7 +1961,7 @@ Sn Ti:
   tex: $S^{(n)}$
   description: Scalar overlap integral with neutron distribution
 Vn Ti:
-  tex: $V^{(n)$
+  tex: $V^{(n)}$
   description: Vector overlap integral with neutron distribution
 GammaCapture Ti:
   tex: $\Gamma_\text{capture}(\phantom k^{48}_{22} \mathrm{Ti})$
@@ -2036,10 +2036,10 @@ delta_deltaRp_Z2:
   tex: $\delta(\delta R^\prime) / Z^2$
   description: Uncertainty on the structure-independent radiative correction to beta decay divided by $Z^2$
 delta_deltaNS,A:
-  tex: $\delta(\delta_{NS,A}$
+  tex: $\delta(\delta_{NS,A})$
   description: Uncertainty on the nuclear structure dependent corrections from quenching in nuclei
 delta_deltaNS,E_QEC:
-  tex: $\delta(\delta_{NS,E} / Q_{EC}$
+  tex: $\delta(\delta_{NS,E}) / Q_{EC}$
   description: Uncertainty on the nuclear structure dependent corrections from nuclear polarizabilities divided by $Q_{EC}$
 f_n:
   tex: $f_n$
diff --git a/flavio/physics/bdecays/bpnunu.py b/flavio/physics/bdecays/bpnunu.py
index b916051..1a1ade6 100644
--- a/flavio/physics/bdecays/bpnunu.py
+++ b/flavio/physics/bdecays/bpnunu.py
@@ -117,7 +117,7 @@ for M in _hadr.keys():
     # total branching ratio
     _obs_name = "BR("+M+"nunu)"
     _obs = flavio.classes.Observable(name=_obs_name)
-    _obs.set_description(r"Branching ratio of $" + _process_tex + r")$")
+    _obs.set_description(r"Branching ratio of $" + _process_tex + r"$")
     _obs.tex = r"$\text{BR}(" + _process_tex + r")$"
     _obs.add_taxonomy(_process_taxonomy)
     flavio.classes.Prediction(_obs_name, BRtot_summed(_hadr[M]['B'], _hadr[M]['P']))
-- 
2.43.0


From 83fbe13f9cc973035697db63bc71510e890e6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 83/97] fix: asymmetric errors of lifetimes derived from widths

---
 flavio/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/parameters.py b/flavio/parameters.py
index 6f71a22..1e8835a 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -234,8 +234,9 @@ class FlavioParticle(Particle):
         G_right = self.width_upper*1e-3
         G_left = self.width_lower*1e-3
         central = 1/G_central # life time = 1/width
-        right = G_right/G_central**2
-        left = G_left/G_central**2
+        # a larger width corresponds to a smaller life time
+        right = G_left/G_central**2
+        left = G_right/G_central**2
         return name, tex, description, central, right, left
 
 def read_pdg(year, constraints):
-- 
2.43.0


From 286a3176fa4dbaa3546d243b8cf6ee4a0677bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 84/97] fix: light quark mass in scalar contributions to D->lnu

---
 flavio/physics/ddecays/dlnu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dlnu.py b/flavio/physics/ddecays/dlnu.py
index 1857e56..3a039f6 100644
--- a/flavio/physics/ddecays/dlnu.py
+++ b/flavio/physics/ddecays/dlnu.py
@@ -13,18 +13,19 @@ def _br_Dlnu(wc_obj, par, P, lep, nu):
     if P=='D+':
         Vij = flavio.physics.ckm.get_ckm(par)[1,0].conj() # Vcd*
         qiqj = 'dc'
+        mq = flavio.physics.running.running.get_md
     elif P=='Ds':
         Vij = flavio.physics.ckm.get_ckm(par)[1,1].conj() # Vcs*
         qiqj = 'sc'
+        mq = flavio.physics.running.running.get_ms
     scale = flavio.config['renormalization scale']['dll']
     # Wilson coefficients
     wc = wc_obj.get_wc(qiqj + lep + 'nu' + nu, scale, par, nf_out=4)
     # add SM contribution to Wilson coefficient
     if lep == nu:
         wc['CVL_'+qiqj+lep+'nu' + nu] += flavio.physics.bdecays.wilsoncoefficients.get_CVLSM(par, scale, nf=4)
-    mb = flavio.physics.running.running.get_mb(par, scale)
     mc = flavio.physics.running.running.get_mc(par, scale)
-    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mb, mc, delta=0)
+    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mq(par, scale), mc, delta=0)
 
 # function returning function needed for prediction instance
 def br_Dlnu_fct(P, lep):
-- 
2.43.0


From 21d18bf5c4317bf459ed58b43e40b863d39448e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 85/97] fix: normalization of the tensor helicity amplitude in
 P->Pll decays

---
 flavio/physics/bdecays/angular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/angular.py b/flavio/physics/bdecays/angular.py
index e6ce084..2198fe1 100644
--- a/flavio/physics/bdecays/angular.py
+++ b/flavio/physics/bdecays/angular.py
@@ -196,7 +196,7 @@ def helicity_amps_p(q2, mB, mP, mqh, mql, ml1, ml2, ff, wc, prefactor):
             (wc['s']+wc['sp'])/(mqh-mql) + (ml1-ml2)/q2*(wc['v']+wc['vp']) )
     h['P'] = (mB**2-mP**2)/2. * ff['f0'] * (
             (wc['p']+wc['pp'])/(mqh-mql) + (ml1+ml2)/q2*(wc['a']+wc['ap']) )
-    h['T']  = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
+    h['T']  = -1j*sqrt(laB)/(sqrt(2)*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
     h['Tt'] = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']+wc['tp']) * ff['fT']
     return {k: prefactor*v for k, v in h.items()}
 
-- 
2.43.0


From 0a7d55d7b548e0ad80fb0bf98ad82fb4d5c64a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 86/97] fix: lepton mass suppression of the interference term
 in l->l'nunu

---
 flavio/physics/taudecays/taulnunu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/taudecays/taulnunu.py b/flavio/physics/taudecays/taulnunu.py
index 6c675f0..b35e1c0 100644
--- a/flavio/physics/taudecays/taulnunu.py
+++ b/flavio/physics/taudecays/taulnunu.py
@@ -11,7 +11,7 @@ def G(x):
     return 1 + 9*x - 9*x**2 - x**3 + 6*x*log(x) + 6*x**2*log(x)
 
 def _BR(x, CL, CR):
-    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * G(x) * (CL * CR.conjugate()).real
+    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * sqrt(x) * G(x) * (CL * CR.conjugate()).real
 
 
 def GFeff(wc_obj, par):
-- 
2.43.0


From 32ad7d4a2dba29e8c8b82f62c9a6fadac28dc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 87/97] fix: sign of the scalar-vector interference in D->Plnu

---
 flavio/physics/ddecays/dplnu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/ddecays/dplnu.py b/flavio/physics/ddecays/dplnu.py
index 172be0c..1e10a49 100644
--- a/flavio/physics/ddecays/dplnu.py
+++ b/flavio/physics/ddecays/dplnu.py
@@ -72,7 +72,9 @@ def _get_angularcoeff(q2, wc_obj, par, D, P, lep, nu):
         mlight = running.get_md(par, scale)
     if qi_qj == 'cs':
         mlight = running.get_ms(par, scale)
-    h = angular.helicity_amps_p(q2, mD, mP, mc, mlight, ml, 0, ff, wc, N)
+    # the operators have the flavour structure (c q): the divergence of the
+    # vector current is proportional to mlight - mc, not mc - mlight
+    h = angular.helicity_amps_p(q2, mD, mP, mlight, mc, ml, 0, ff, wc, N)
     J = angular.angularcoeffs_general_p(h, q2, mD, mP, mc, mlight, ml, 0)
     return J
 
-- 
2.43.0


From 16ad1fbfab490f6d9c374eac6a3c2e786c724409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 88/97] fix: positive definiteness of covariances of parameters
 of very different magnitude

---
 flavio/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/parameters.py b/flavio/parameters.py
index 1e8835a..e9a92a1 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -62,14 +62,16 @@ def _read_yaml_object_values_correlated(obj, constraints):
             errors.append(sqrt(squared_error))
         correlation = _fix_correlation_matrix(parameter_group['correlation'], len(parameter_names))
         covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
-        if not np.all(np.linalg.eigvals(covariance) > 0):
+        # test the correlation matrix, as the covariance can be ill-conditioned
+        # if the errors have very different magnitude
+        if not np.all(np.linalg.eigvals(correlation) > 0):
             # if the covariance matrix is not positive definite, try a dirty trick:
             # multiply all the correlations by 0.99.
             n_dim = len(correlation)
             correlation = (correlation - np.eye(n_dim))*0.99 + np.eye(n_dim)
             covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
             # if it still isn't positive definite, give up.
-            assert np.all(np.linalg.eigvals(covariance) > 0), "The covariance matrix is not positive definite!" + str(covariance)
+            assert np.all(np.linalg.eigvals(correlation) > 0), "The covariance matrix is not positive definite!" + str(covariance)
         constraints.add_constraint(parameter_names, MultivariateNormalDistribution(central_values, covariance))
 
 def read_file(filename):
-- 
2.43.0


From fa8eb795c935b1aa99f33a28f526dacd0a84c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 89/97] fix: warning about correlations of a distribution used
 for two sets of observables

---
 flavio/statistics/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index e5c2eb6..459d764 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -88,7 +88,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 constraint = m._parameters[obs][1]
                 # find all the other obs. constrained by this constraint
                 for c, p in m._constraints:
-                    if c == constraint:
+                    if c == constraint and obs in p:
                         par = p
                         break
                 for p in par:
-- 
2.43.0


From 48c20822042e7551d1e9bd9a8d91061aff226068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 90/97] fix: interference of dipole and vector form factors in
 B->ll'gamma uses the vector form factor

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 80a2a8d..57ca073 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -74,7 +74,7 @@ def getF1(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     fftv, ffta = getfft(s, par, B, ff, ff0, lep, wc)
-    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*ffta*_Co(wc['C9_'+label]))
+    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*fftv*_Co(wc['C9_'+label]))
 
 def getF2(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From bcb718bcde7570717dd3f40892898c349b7ac474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 91/97] fix: bremsstrahlung from the leptons in B->llgamma

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 57ca073..accc1b7 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -130,7 +130,7 @@ def dG2dsMN(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     pref = 16*prefactor(s, par, B, ff, lep, wc)*(par['f_'+B]/par['m_'+B]*abs(wc['C10_'+label])*mlh)**2/(1-s)
-    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+4*atanh(sqrt(1-4*mlh**2/s))*(1+s-mlh**2*(1-s)**2))
+    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+8*atanh(sqrt(1-4*mlh**2/s))*(1+s**2-4*mlh**2))
 
 def dG12dsMN(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From ae8afd7670109415069a420ff71b5f0980f77c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 92/97] fix: phase of mixing in time-averaged Bs->Vll
 observables

---
 flavio/physics/bdecays/bvll/observables_bs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/observables_bs.py b/flavio/physics/bdecays/bvll/observables_bs.py
index 5fae252..6906e4f 100644
--- a/flavio/physics/bdecays/bvll/observables_bs.py
+++ b/flavio/physics/bdecays/bvll/observables_bs.py
@@ -29,7 +29,9 @@ def bsvll_obs(function, q2, wc_obj, par, B, V, lep):
     h_tilde[('mi', 'A')] = h_bar[('pl', 'A')]
     h_tilde['S'] = -h_bar['S']
     q_over_p = flavio.physics.mesonmixing.observables.q_over_p(wc_obj, par, B)
-    phi = cmath.phase(-q_over_p) # the phase of -q/p
+    # the amplitudes h (h_bar) are those of the Bs-bar (Bs) decay, so the phase of
+    # -p/q enters in h_tilde h^*
+    phi = -cmath.phase(-q_over_p)
     J_h = flavio.physics.bdecays.angular.angularcoeffs_h_v(phi, h, h_tilde, q2, mB, mV, mb, 0, ml, ml)
     return function(y, J, J_bar, J_h)
 
-- 
2.43.0


From de4001cbd654e608bf9b2625c26dadb0fff5d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 93/97] fix: no interference of mixing and decay in the
 flavour-specific decay Bs->K*ll

---
 flavio/physics/bdecays/bvll/observables_bs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/bvll/observables_bs.py b/flavio/physics/bdecays/bvll/observables_bs.py
index 6906e4f..96dcef6 100644
--- a/flavio/physics/bdecays/bvll/observables_bs.py
+++ b/flavio/physics/bdecays/bvll/observables_bs.py
@@ -33,6 +33,10 @@ def bsvll_obs(function, q2, wc_obj, par, B, V, lep):
     # -p/q enters in h_tilde h^*
     phi = -cmath.phase(-q_over_p)
     J_h = flavio.physics.bdecays.angular.angularcoeffs_h_v(phi, h, h_tilde, q2, mB, mV, mb, 0, ml, ml)
+    if V == 'K*0':
+        # the final state identifies the flavour of the decaying meson, so
+        # there is no interference between mixing and decay
+        J_h = {i: 0. for i in J_h}
     return function(y, J, J_bar, J_h)
 
 def S_theory_num_Bs(y, J, J_bar, J_h, i):
-- 
2.43.0


From 310250356df4d0b3fe414596f12635c9ff5d296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 94/97] fix: sign convention of q/p in Bs->Vll and B->Vgamma
 for large mixing phases

---
 flavio/physics/bdecays/bvgamma.py             | 2 +-
 flavio/physics/bdecays/bvll/observables_bs.py | 2 +-
 flavio/physics/mesonmixing/observables.py     | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bvgamma.py b/flavio/physics/bdecays/bvgamma.py
index ed7929d..c17dfe8 100644
--- a/flavio/physics/bdecays/bvgamma.py
+++ b/flavio/physics/bdecays/bvgamma.py
@@ -115,7 +115,7 @@ def ACP(wc_obj, par, B, V):
 
 def S_A_complex(wc_obj, par, B, V):
     a, a_bar = get_a_abar(wc_obj, par, B, V)
-    q_over_p = mesonmixing.observables.q_over_p(wc_obj, par, B)
+    q_over_p = mesonmixing.observables.q_over_p_B(wc_obj, par, B)
     beta = ckm.get_ckmangle_beta(par)
     den = Gamma_CPaverage(a, a_bar)
     # minus sign from different convention of q/p compared to Ball/Zwicky
diff --git a/flavio/physics/bdecays/bvll/observables_bs.py b/flavio/physics/bdecays/bvll/observables_bs.py
index 96dcef6..c229175 100644
--- a/flavio/physics/bdecays/bvll/observables_bs.py
+++ b/flavio/physics/bdecays/bvll/observables_bs.py
@@ -28,7 +28,7 @@ def bsvll_obs(function, q2, wc_obj, par, B, V, lep):
     h_tilde[('mi', 'V')] = h_bar[('pl', 'V')]
     h_tilde[('mi', 'A')] = h_bar[('pl', 'A')]
     h_tilde['S'] = -h_bar['S']
-    q_over_p = flavio.physics.mesonmixing.observables.q_over_p(wc_obj, par, B)
+    q_over_p = flavio.physics.mesonmixing.observables.q_over_p_B(wc_obj, par, B)
     # the amplitudes h (h_bar) are those of the Bs-bar (Bs) decay, so the phase of
     # -p/q enters in h_tilde h^*
     phi = -cmath.phase(-q_over_p)
diff --git a/flavio/physics/mesonmixing/observables.py b/flavio/physics/mesonmixing/observables.py
index eb5b078..be2f962 100644
--- a/flavio/physics/mesonmixing/observables.py
+++ b/flavio/physics/mesonmixing/observables.py
@@ -47,6 +47,15 @@ def q_over_p(wc_obj, par, meson):
     M12, G12 = get_M12_G12(wc_obj, par, meson)
     return common.q_over_p(M12, G12)
 
+def q_over_p_B(wc_obj, par, meson):
+    r"""$q/p$ in the convention where $\Delta M = M_2 - M_1$ is positive,
+    as used in the $B$ system."""
+    M12, G12 = get_M12_G12(wc_obj, par, meson)
+    qp = common.q_over_p(M12, G12)
+    if common.DeltaM(M12, G12) < 0:
+        return -qp  # switch the sign of q/p to keep DeltaM > 0
+    return qp
+
 def DeltaGamma_B(wc_obj, par, meson):
     r"""Decay width difference defined as
     $\Delta\Gamma = \Gamma_1 - \Gamma_2$ in the convention where
-- 
2.43.0


From 5a7a5d18f2b182cc310dad89942f4d0bc2af62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:38 +0000
Subject: [PATCH 95/97] fix: electromagnetic correction to K+->pi0lnu

---
 flavio/physics/kdecays/kpilnu.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index c888eca..e8ae0ca 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -51,14 +51,15 @@ def dBRdq2(q2, wc_obj, par, K, P, lep):
         return 0
     tauK = par['tau_'+K]
     J = get_angularcoeff(q2, wc_obj, par, K, P, lep)
-    if P == 'pi0':
-        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
-        return tauK * dGdq2(J) / 2.
     if K == 'K+':
         deltaEM = par['K+' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
     elif K == 'KL' or K == 'KS':
         deltaEM = par['K0' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
-    return tauK * dGdq2(J) * (1 + deltaEM)**2
+    dBR = tauK * dGdq2(J) * (1 + deltaEM)**2
+    if P == 'pi0':
+        # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
+        return dBR / 2.
+    return dBR
 
 def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     def integrand(q2):
-- 
2.43.0


From 19e45ac616568415db953f043ec4e30445189c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:22 +0000
Subject: [PATCH 96/97] fix: spurious pole in the gluon correction to the
 asymmetry of B->Xll

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 7de7a42..ef2c2d5 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -234,7 +234,7 @@ def tau99(s):
 def tau79(s):
     return - (4 * (1-s)**2)/(9 * s) * log(1-s)-(4 * s * (3-2 * s))/(9 * (1-s)**2) * log(s) -(2 * (5-3 * s))/(9 * (1-s))
 def tau710(s):
-	return -5/2 + 1/(3 * (1-3*s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
+	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
 def tau910(s) :
 	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7*s) * log(s))/(((1-s)**2)) - 2/9 * ((3-5 * s + 2 * s**2) * log(1-s))/(s) + (f9(s))/3
 def f7(s):
-- 
2.43.0


From a3559baebe5cdb667844d7d739edb6d8f242a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:14 +0000
Subject: [PATCH 97/97] fix: double counting of LFV coefficients given at the
 kaon scale in KL,KS->emu

get_wc may return coefficients of both sectors; adding the dictionaries then
counts them twice.
---
 flavio/physics/kdecays/kll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index d76d71e..62e79c4 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -85,7 +85,7 @@ def get_wc(wc_obj, par, l1, l2):
     else:
         wcsm = {}
         # the amplitude of the conjugate kaon involves the conjugate operators
-        wcnp = add_dict((wcnp, wc_obj.get_wc('sd' + l2 + l1, scale, par)))
+        wcnp = {**wcnp, **wc_obj.get_wc('sd' + l2 + l1, scale, par)}
 
     return add_dict((wcsm, wcnp))
 
-- 
2.43.0

