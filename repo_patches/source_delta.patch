From 58f6d6a31febb9d68b3e22b691709d0497ae8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 01/59] fix: keep constraints independent if a distribution
 object or name list is reused

---
 flavio/classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..6f97283 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -147,6 +147,12 @@ class Constraints(object):
         `constraint` must be an instance of a child of ProbabilityDistribution.
 
         Note that if there already exists a constraint, it will be removed."""
+        # don't hold on to the caller's list
+        parameters = list(parameters)
+        if any(constraint is c for c, _ in self._constraints):
+            # the same distribution object is already used for other
+            # parameters: use a copy to keep the two constraints independent
+            constraint = copy.copy(constraint)
         for num, parameter in enumerate(parameters):
             if is_parameter_constraint:
                 try: # check if parameter object already exists
-- 
2.43.0


From ba596756bdc2b0ec8f1fa213869e1f1d1daf3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 02/59] fix: do not dump removed or replaced constraints to
 YAML

---
 flavio/classes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 6f97283..8b0f422 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -384,6 +384,16 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            if all((i, constraint) != self._parameters.get(p, None)
+                   for i, p in enumerate(parameters)):
+                # the constraint has been removed or replaced entirely
+                continue
+            # parameters whose constraint has been removed (and not replaced)
+            removed = tuple(i for i, p in enumerate(parameters)
+                            if p not in self._parameters)
+            if removed:
+                parameters = [p for i, p in enumerate(parameters) if i not in removed]
+                constraint = constraint.reduce_dimension(exclude=removed)
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From 06f4e268598f6ebbe13672d3fd3602dbff764675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 03/59] fix: get_1d_errors_rightleft only considers current
 constraints

---
 flavio/classes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 8b0f422..202a058 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -284,15 +284,16 @@ class Constraints(object):
         r"""Get the left and right error for every parameter/observable
         defined such that it contains 68% probability on each side of the
         central value."""
-        errors_left = [constraint.error_left for constraint, _ in self._constraints]
-        errors_right = [constraint.error_right for constraint, _ in self._constraints]
         error_dict = {}
+        errors = {}  # errors of each constraint that has not been removed
         # now, iterate over the parameters
         for parameter, constraints in self._parameters.items():
             num, constraint = constraints
-            idx = ([constraint for constraint, _ in self._constraints]).index(constraint)
-            error_dict[parameter] = (np.ravel([errors_right[idx]])[num],
-                                     np.ravel([errors_left[idx]])[num])
+            if constraint not in errors:
+                errors[constraint] = (np.ravel([constraint.error_right]),
+                                      np.ravel([constraint.error_left]))
+            error_right, error_left = errors[constraint]
+            error_dict[parameter] = (error_right[num], error_left[num])
         return error_dict
 
     def get_logprobability_single(self, parameter, value, delta=False):
-- 
2.43.0


From 4b9573ff8de1085ff282a9150c360f47ff47718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/59] fix: deprecated get_1d_errors returns its result

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 202a058..9c21ae5 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -268,7 +268,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From be966d1a0aac6098451f43eb51c507912fc72985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 05/59] fix: scalar central value when reducing a multivariate
 numerical distribution to one dimension

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..872806d 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1575,7 +1575,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From f6f70f7da2292958e032514248b9fc28c20781f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 06/59] fix: ProbabilityDistribution.get_dict must not modify
 the instance

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 872806d..cf5a45d 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -90,7 +90,9 @@ class ProbabilityDistribution(object):
         od = OrderedDict()
         if distribution:
             od['distribution'] = self.class_to_string()
-        od.update(OrderedDict((a, d[a]) for a in args))
+        # copy lists in order not to modify the attributes of the instance below
+        od.update(OrderedDict((a, list(d[a]) if isinstance(d[a], list) else d[a])
+                              for a in args))
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-- 
2.43.0


From 2f4781e8d2ae2220f32d05c146e21c68a751718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 07/59] fix: kernel density estimates can be loaded from YAML

---
 flavio/statistics/probability.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index cf5a45d..ee238cc 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -96,7 +96,8 @@ class ProbabilityDistribution(object):
         if iterate:
             for k in od:
                 if isinstance(od[k], ProbabilityDistribution):
-                    od[k] = od[k].get_dict(distribution=True)
+                    od[k] = od[k].get_dict(distribution=True, iterate=iterate,
+                                           arraytolist=arraytolist)
         if arraytolist:
             for k in od:
                 if isinstance(od[k], np.ndarray):
@@ -1276,7 +1277,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
@@ -2051,6 +2052,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # instantiate nested distributions (e.g. kernels)
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 674f7d399beb561ebb11c909418a06c709b7a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 08/59] fix: GeneralGammaDistributionPositive can be
 instantiated directly

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ee238cc..2081d60 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1027,7 +1027,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
-- 
2.43.0


From 34f4869e8300903355962342703ad523cb0798fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 09/59] fix: GeneralGammaUpperLimit with negligible background
 uncertainty can be loaded from YAML

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 2081d60..406523e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1229,7 +1229,6 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
                 background_std = background_variance
         elif background_std is None:
             background_std = 0
-        self.background_variance = background_std
         self.limit = limit
         self.confidence_level = confidence_level
         _d_unscaled = GeneralGammaCountingProcess(
@@ -1247,6 +1246,8 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
             counts_background=counts_background,
             counts_signal=counts_signal,
             background_std=background_std)
+        # alias; background_std has been set to 0 if it is negligible
+        self.background_variance = self.background_std
 
     def __repr__(self):
         return ('flavio.statistics.probability.GeneralGammaUpperLimit'
-- 
2.43.0


From 4d9c339dfa76b8cf413e9615a7e724c16c08cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 10/59] fix: support of log-normal distributions with negative
 central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 406523e..1330b55 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -349,8 +349,8 @@ class LogNormalDistribution(ProbabilityDistribution):
         self.log_central_value = math.log(abs(central_value))
         if central_value < 0:
             self.central_sign = -1
-            slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+            slim = -math.exp(math.log(abs(central_value))
+                             + 6 * self.log_standard_deviation)
             super().__init__(central_value,
                              support=(slim, 0))
         else:
-- 
2.43.0


From 59ee1be5ffa8a1cfd17095f43ca1b8d1bea72eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 11/59] fix: GammaUpperLimit can be defined by any two of the
 three counts

---
 flavio/statistics/probability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 1330b55..f9c2be5 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -850,7 +850,8 @@ class GammaUpperLimit(GammaCountingProcess):
         super().__init__(
             scale_factor=scale_factor,
             counts_total=counts_total,
-            counts_background=counts_background)
+            counts_background=counts_background,
+            counts_signal=counts_signal)
 
     def __repr__(self):
         return ('flavio.statistics.probability.GammaUpperLimit'
-- 
2.43.0


From dcf15a90c43b39fa28f94022683a467142edd343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 12/59] fix: drawing a single random number from
 GammaDistributionPositive

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index f9c2be5..5de6e21 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -674,7 +674,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From 60e5a04b6bb0f0b911e8e91d42c76f160884b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 13/59] fix: size is optional in GammaDistribution.get_random

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5de6e21..551411c 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -605,7 +605,7 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
+    def get_random(self, size=None):
         return self.scipy_dist.rvs(size=size)
 
     def cdf(self, x):
-- 
2.43.0


From 7ad9ced94bc1dcfe30c0db2bc948a47f67d6bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 14/59] fix: convolution of multivariate normal distributions
 with central values given as arrays

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 551411c..2b8e501 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1785,7 +1785,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.all(np.asarray(p.central_value) == np.asarray(central_value)) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From e3f1bdcc298ee23b06f2e23f6dd1a491b8df3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 15/59] fix: set support of multivariate numerical
 distributions without explicit central value

---
 flavio/statistics/probability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 2b8e501..b010b82 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1497,14 +1497,14 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         for i, x in enumerate(xi):
             if len(x) == 2:
                 self.xi[i] = np.linspace(x[0], x[1], self.y.shape[i])
+        support = (np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi]))
         if central_value is not None:
-            super().__init__(central_value=central_value,
-                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
+            super().__init__(central_value=central_value, support=support)
         else:
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode, support=support)
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From 2c45b1018709b2ce8017cd750aebe47edadd7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 16/59] fix: random numbers from multivariate numerical
 distributions follow the PDF

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index b010b82..14d3ed7 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1551,8 +1551,8 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
+        # find the index of the first CDF-value larger than r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
         indices = np.where(self.y == self._y_flat[i_r])
         i_bla = np.random.choice(len(indices[0]))
         index = tuple([a[i_bla] for a in indices])
-- 
2.43.0


From 0f72bb2c2254e7d2e2feb928cd8ccd409bf976c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 17/59] fix: numbers with a unicode minus sign are parsed as
 constraints without uncertainty

---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index b30cdd2..dc16d2a 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -146,7 +146,7 @@ def constraints_from_string(constraint_string):
         # try again if the number is a float now
         try:
             float(constraint_string)
-            return {'central_value': float(constraint_string)}
+            return [DeltaDistribution(float(constraint_string))]
         except:
             pass
     if _pattern_upperlimit.match(constraint_string):
-- 
2.43.0


From 94885d8a5598b4d58a4dd320ae3274c4e0aabfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 18/59] fix: dumping Likelihood instances to YAML

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..7cb71dc 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -282,8 +282,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From 7b2e0c90aa3d999f22bfe30e15d3b2594459ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 19/59] fix: keep include_pseudo_measurements when dumping
 likelihoods to YAML

---
 flavio/statistics/likelihood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 7cb71dc..b97a570 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -35,6 +35,8 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.All(iio.ensurelist, [str]),
         'include_measurements': vol.All(iio.ensurelist, [str]),
+        # only needs to be dumped if True
+        'include_pseudo_measurements': lambda v: v or None,
     }
 
     def __init__(self, observables, *,
@@ -287,6 +289,8 @@ class Likelihood(iio.YAMLLoadable):
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
+        # only needs to be dumped if True
+        'include_pseudo_measurements': lambda v: v or None,
     }
 
     def __init__(self,
@@ -303,6 +307,7 @@ class Likelihood(iio.YAMLLoadable):
         self.observables = observables
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
+        self.include_pseudo_measurements = include_pseudo_measurements
         self.measurement_likelihood = MeasurementLikelihood(
             observables,
             exclude_measurements=exclude_measurements,
-- 
2.43.0


From 61f595fcce1f38f10e6b8432d42b651df8a752e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 20/59] fix: keep empty nuisance_parameters when dumping
 FastLikelihood to YAML

---
 flavio/statistics/likelihood.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index b97a570..1733560 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -704,6 +704,13 @@ class FastLikelihood(NamedInstanceClass, iio.YAMLLoadable):
             include_pseudo_measurements=True,  # force including the pseudo-meas.
             )
 
+    def get_yaml_dict(self):
+        """Dump the object to a YAML dictionary."""
+        d = super().get_yaml_dict()
+        # an empty list must not be omitted as the default is 'all'
+        d.setdefault('nuisance_parameters', [])
+        return d
+
     @property
     def likelihood(self):
         if self._likelihood is None:
-- 
2.43.0


From 17276c3fae28f0e352bfe6da830a0595add5b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 21/59] fix: general gamma distributions with negligible
 Gaussian uncertainty

The negligible standard deviation was set to zero only after it had been used
to build the numerical distribution, so that reloading the dumped distribution
did not reproduce it.
---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 14d3ed7..43afef8 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1027,13 +1027,13 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.loc = loc
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
-        x, y = self._get_xy()
         if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
                           "GeneralGammaDistributionPositive to avoid numerical "
                           "instability.")
+        x, y = self._get_xy()
         super().__init__(x=x, y=y)
 
     def __repr__(self):
@@ -1161,7 +1161,7 @@ class GeneralGammaCountingProcess(GeneralGammaDistributionPositive):
             a = self.counts_total + 1,
             loc = -self.counts_background * self.scale_factor,
             scale = self.scale_factor,
-            gaussian_standard_deviation = background_std
+            gaussian_standard_deviation = self.background_std
         )
 
     def __repr__(self):
-- 
2.43.0


From 8eb9fe4f7d849881f3fc71c8a8d92643b9be686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 22/59] fix: stale Wilson coefficient cache after change of CKM
 parameters

WilsonCoefficients.from_wilson left the cache of the original Wilson instance
untouched when changing the CKM parameters in its (shared) options, so that
later predictions used the running and matching with outdated CKM elements.
---
 flavio/physics/eft.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..e4809a6 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -166,13 +166,14 @@ class WilsonCoefficients(wilson.Wilson):
             return None
         if isinstance(w, cls):
             return w
+        _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
+        if w.get_option('parameters') != _ckm_options:
+            # this also clears the cache, which is shared with the new instance
+            w.set_option('parameters', _ckm_options)
         fwc = cls()
         fwc.set_initial_wcxf(w.wc)
         fwc._cache = w._cache
         fwc._options = w._options
-        _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
-        if fwc.get_option('parameters') != _ckm_options:
-            fwc.set_option('parameters', _ckm_options)
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From 8a27ed544b0c90a06b7a71bf8342dff94b9a72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 23/59] fix: cache of predictions in MeasurementLikelihood

Do not confuse points with equal hash, take values of Wilson options into
account, and do not hand out the cached dictionary itself.
---
 flavio/statistics/likelihood.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 1733560..77ce4a7 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -1,6 +1,7 @@
 import flavio
 from collections import Counter
 import warnings
+import copy
 import numpy as np
 import voluptuous as vol
 import pickle
@@ -62,7 +63,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -144,9 +145,12 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        # the function's arguments are used as key for caching. Comparing hashes
+        # is not enough: e.g. hash(-1.) == hash(-2.), and the hash of a Wilson
+        # instance does not depend on the values of its options
+        key = (dict(par_dict), type(wc_obj), getattr(wc_obj, 'wc', None),
+               copy.deepcopy(getattr(wc_obj, '_options', None)))
+        if key != self._predictions_cache_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -154,8 +158,9 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            self._predictions_cache_key = key
+        # the caller must not modify the cached values
+        return self._predictions_cache_values.copy()
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From b4aee8b63f0c074bb432f4c6231e8bf068516baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 24/59] fix: arguments are optional in
 Constraints.from_yaml_dict

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 9c21ae5..4dae09f 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -453,7 +453,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From 9aede267818c32400f174079e5fbb8cb62065a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 25/59] fix: Observable.argument_format for dictionary input

Return a new dictionary (callers pop its 'name' key) and do not split the name
of an observable without arguments into characters.
---
 flavio/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 4dae09f..3921f61 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -631,11 +631,11 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = dict(obs)
         if format == 'tuple':
             return t
         elif format == 'list':
-            return list(t)
+            return t if isinstance(t, str) else list(t)
         elif format == 'dict':
             return d
 
-- 
2.43.0


From a59544893fd44299d070af77cb1296ba9a778eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 26/59] fix: B->V and Lambdab form factors modify the parameter
 dictionary of the caller

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 8 +++++---
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..ea7d8da 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,9 +50,11 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
-    par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
-    par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
+    # (without modifying the parameter dictionary of the caller)
+    a0 = {'A12': par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2)),
+          'T2': par[par_prefix + ' a0_T1']}
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
-        a = [ par[par_prefix + ' a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0 else par[par_prefix + ' a' + str(j) + '_' + i]
+              for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mB, mV, q2, t0=None)[:n])
     return ff
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..533afe8 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,9 +50,11 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
-    par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
-    par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
+    # (without modifying the parameter dictionary of the caller)
+    a0 = {'fAperp': par[process+' SSE a0_fA0'],
+          'fT5perp': par[process+' SSE a0_fT50']}
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-        a = [ par[process+' SSE ' + 'a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0 else par[process+' SSE ' + 'a' + str(j) + '_' + i]
+              for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mX, mP, par, q2)[:n])
     return ff
-- 
2.43.0


From 8ccda6ef79500e5e73e6ca458e3565a7b9f642c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 27/59] fix: CP-conjugate Wilson coefficients in
 Lambdab->Lambda(1520)ll CP asymmetries and averages

---
 flavio/physics/bdecays/lambdablambda1520ll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
-- 
2.43.0


From ed4c47af58e5d455e6c927d06188762ad85601c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 28/59] fix: reject constraint strings with incomplete
 asymmetric uncertainties instead of ignoring a part

---
 flavio/_parse_errors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index dc16d2a..df673ff 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -53,7 +53,11 @@ def errors_from_string(constraint_string):
                 # appropriate power of 10
                 standard_deviation = float(err)*10**(-number_decimal)*overall_factor
             errors['symmetric_errors'].append(standard_deviation)
-    elif pattern_symmetric_err.match(error_string) or pattern_asymmetric_err.match(error_string):
+    else:
+        # make sure that no part of the uncertainties is ignored, e.g. an
+        # upwards error without the corresponding downwards error
+        if pattern_asymmetric_err.sub('', pattern_symmetric_err.sub('', error_string)).strip():
+            raise ValueError("Constraint " + constraint_string + " not understood")
         for err in re.findall(pattern_symmetric_err, error_string):
             errors['symmetric_errors'].append( float(err)*overall_factor )
         for err in re.findall(pattern_asymmetric_err, error_string):
-- 
2.43.0


From 4771dcd0deb9bfc2444681071832b4160e85b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 29/59] fix: right-hand error of one-sided
 GammaDistributionPositive refers to the central value

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 43afef8..85b6429 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -736,7 +736,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
             # look at a one-sided 1 sigma range. If the PDF at 0
             # is smaller than the PDF at the boundary of this range, return the
             # boundary of the range as the right-hand error
-            return one_sided_error
+            return one_sided_error - self.central_value
         else:
             a = self._find_error_cdf(confidence_level(nsigma))
             return self.ppf(a + confidence_level(nsigma)) - self.central_value
-- 
2.43.0


From ff7fe74602ad36635040493da686318ed44578b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 30/59] fix: CDF of numerical distributions outside of their
 range

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 85b6429..5e90627 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -897,7 +897,9 @@ class NumericalDistribution(ProbabilityDistribution):
         _cdf[1:] = np.cumsum(self.y_norm[:-1] * np.diff(x))
         _cdf = _cdf/_cdf[-1] # normalize CDF to 1
         self.ppf_interp = interp1d(_cdf, x)
-        self.cdf_interp = interp1d(x, _cdf)
+        # the CDF is 0 below and 1 above the range
+        self.cdf_interp = interp1d(x, _cdf,
+                                   fill_value=(0, 1), bounds_error=False)
 
     def __repr__(self):
         return 'flavio.statistics.probability.NumericalDistribution' + \
-- 
2.43.0


From 4dd1a98ea66a71e81751f93398e3340ab879c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 31/59] fix: CDF of GammaDistributionPositive for arrays

---
 flavio/statistics/probability.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 5e90627..26f9476 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -690,10 +690,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
     def cdf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
         cdf = (self.scipy_dist.cdf(x) - cdf0)/(1-cdf0)
-        return np.piecewise(
-                    np.asarray(x, dtype=float),
-                    [x<0, x>=0],
-                    [0., cdf]) # return 0 for negative x
+        return np.where(np.asarray(x) < 0, 0., cdf) # return 0 for negative x
 
     def ppf(self, x):
         cdf0 = self.scipy_dist.cdf(0)
-- 
2.43.0


From e1240e5bf13ac2955478931cb93d0e1824bca3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 32/59] fix: do not double the PDF at zero in
 GeneralGammaDistributionPositive without Gaussian uncertainty

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 26f9476..a197f18 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1065,7 +1065,10 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         # then cut off anything below x=0
         x = num_unscaled.x
         y = num_unscaled.y_norm
-        if loc_scaled in x:
+        if self.gaussian_standard_deviation == 0:
+            # nothing to mirror
+            pass
+        elif loc_scaled in x:
             to_mirror = y[x<=loc_scaled][::-1]
             y_pos = y[len(to_mirror)-1:len(to_mirror)*2-1]
             y[len(to_mirror)-1:len(to_mirror)*2-1] += to_mirror[:len(y_pos)]
-- 
2.43.0


From a43f114a06404968405dce9ebeb4eb898a672f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 33/59] fix: raise NotImplementedError instead of returning
 None when convolving several multivariate numerical distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index a197f18..4c31be5 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1754,7 +1754,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From a9452c5d31edcedd212e78ae6b08bc7112981746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 34/59] fix: central value of the convolution of multivariate
 normal and numerical distributions

---
 flavio/statistics/probability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 4c31be5..c36fd33 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1858,10 +1858,12 @@ def _convolve_multivariate_gaussian_numerical(mvgaussian,
     f = scipy.signal.fftconvolve(y_num, y_gauss, mode='same')
     f[f < 0] = 0
     f = f/f.sum()
+    central_value = np.asarray(mvnumerical.central_value)
     if central_values == 'sum':
         # shift back
         xi = (xi.T + np.array(mvgaussian.central_value)).T
-    return MultivariateNumericalDistribution(xi, f)
+        central_value = central_value + np.asarray(mvgaussian.central_value)
+    return MultivariateNumericalDistribution(xi, f, central_value=central_value)
 
 
 def combine_distributions(probability_distributions):
-- 
2.43.0


From 87bf1ea75893e1eba67fcce5ebb888094b68a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 35/59] fix: covariance matrices with tiny elements can be
 specified by their upper triangle

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c36fd33..3bb8531 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1363,7 +1363,10 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            # compare the elements with the variances as they can be tiny
+            _err = np.sqrt(np.diag(covariance))
+            if not np.allclose(covariance / np.outer(_err, _err),
+                               covariance.T / np.outer(_err, _err), atol=1e-5):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From 92817ffb89a1f988a956e67ef6c777d1f97e73c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 36/59] fix: CP conjugation of the parameters in the
 Wolfenstein and beta-gamma parametrizations

---
 flavio/physics/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..ad3a5fc 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,10 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are the ones related to the
+    CKM phase in the different parametrizations: `gamma` (tree and beta-gamma),
+    `beta` (beta-gamma), `delta` (standard), and `etabar` (Wolfenstein)."""
+    cp_odd = ['gamma', 'delta', 'beta', 'etabar']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0


From cc7c93ed4cbfe2af984fee48b7335631dcce8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 37/59] fix: CKM matrix in the tree parametrization for
 negative gamma (CP-conjugate amplitudes)

---
 flavio/physics/ckm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/physics/ckm.py b/flavio/physics/ckm.py
index 976b429..df53563 100644
--- a/flavio/physics/ckm.py
+++ b/flavio/physics/ckm.py
@@ -29,6 +29,10 @@ def ckm_wolfenstein(laC, A, rhobar, etabar):
 
 @lru_cache(maxsize=2)
 def ckm_tree(Vus, Vub, Vcb, gamma):
+    if gamma < 0:
+        # the relation between gamma and delta used by ckmutil is only valid for
+        # positive gamma; flipping the sign amounts to complex conjugation
+        return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, -gamma).conj()
     return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)
 
 @lru_cache(maxsize=2)
-- 
2.43.0


From 1867147461c2f533ca219d90eb8bc3f13b0dba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 38/59] fix: e/mu-averaged B->Vlnu polarization observables
 raised KeyError

---
 flavio/physics/bdecays/bvlnu.py | 41 +++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..e7f82bf 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,10 +168,11 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
-    if not kinem_allowed(q2, par, B, V, lep):
+    num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+    if num == 0:
         return 0
-    J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-    return dGdq2_L(J) / dGdq2(J)
+    denom = dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
+    return num / denom
 
 
 def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
@@ -182,14 +183,22 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     return num / denom
 
 def Itot_norm(fct_J, wc_obj, par, B, V, lep):
-    def fct(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    if lep == 'l':
+        # average of e and mu!
+        leps = ['e', 'mu']
+    else:
+        leps = [lep]
+    num = 0
+    den = 0
+    for l in leps:
+        def fct(q2):
+            J = get_angularcoeff(q2, wc_obj, par, B, V, l)
+            return fct_J(J)
+        def fct_den(q2):
+            J = get_angularcoeff(q2, wc_obj, par, B, V, l)
+            return dGdq2(J)
+        num += obs_q2int(fct, wc_obj, par, B, V, l)
+        den += obs_q2int(fct_den, wc_obj, par, B, V, l)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -342,12 +351,10 @@ def FL_binned_function(B, V, lep):
 
 def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
-        mB = par['m_'+B]
-        mV = par['m_'+V]
-        ml = par['m_'+lep]
-        q2max = (mB-mV)**2
-        q2min = ml**2
-        return FL_binned(q2min, q2max, wc_obj, par, B, V, lep)
+        num = BR_tot(wc_obj, par, B, V, lep, A='L')
+        if num == 0:
+            return 0
+        return num / BR_tot(wc_obj, par, B, V, lep, A=None)
     return f
 
 def FLt_tot_function(B, V, lep):
-- 
2.43.0


From a9c6c98c3aaf0cbba9eefa5bcf0f46faa114c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 39/59] fix: e/mu-averaged K->pi l nu and Lambda->p l nu
 observables raised KeyError

---
 flavio/physics/kdecays/kpilnu.py     | 15 ++++++++++++++-
 flavio/physics/kdecays/lambdaplnu.py |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..1f52c60 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -65,7 +65,7 @@ def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
         return dBRdq2(q2, wc_obj, par, K, P, lep)
     return flavio.math.integrate.nintegrate(integrand, q2min, q2max)
 
-def BR_tot(wc_obj, par, K, P, lep):
+def _BR_tot(wc_obj, par, K, P, lep):
     mK = par['m_'+K]
     mP = par['m_'+P]
     ml = par['m_'+lep]
@@ -73,6 +73,13 @@ def BR_tot(wc_obj, par, K, P, lep):
     q2min = ml**2
     return BR_binned(q2min, q2max, wc_obj, par, K, P, lep)
 
+def BR_tot(wc_obj, par, K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (_BR_tot(wc_obj, par, K, P, 'e') + _BR_tot(wc_obj, par, K, P, 'mu'))/2.
+    else:
+        return _BR_tot(wc_obj, par, K, P, lep)
+
 def BR_tot_function(K, P, lep):
     return lambda wc_obj, par: BR_tot(wc_obj, par, K, P, lep)
 
@@ -106,12 +113,18 @@ def RT(wc_obj, par, lep):
 
 def logC_function(lep):
     def _(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu'))/2.
         return logC(wc_obj, par, lep)
     return _
 
 
 def RT_function(lep):
     def _(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu'))/2.
         return RT(wc_obj, par, lep)
     return _
 
diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..03a60ad 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,9 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, 'e', 'e') + g1_f1(wc_obj, par, 'mu', 'mu'))/2.
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From 2d5c5f2c8f005a563b96bc08d9e256db564e8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 40/59] fix: B->K BSZ form factor parameters are missing from
 the parameter list (uncertainty budget)

---
 .../bdecays/formfactors/b_p/bsz_parameters.py | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py b/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
index 2567fee..eec9b77 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py
@@ -32,23 +32,27 @@ def get_ffpar(filename):
     return [central, unc, corr]
 
 
+def _get_or_create_parameter(parameter_name, constraints):
+    try:  # check if parameter object already exists
+        p = Parameter[parameter_name]
+    except KeyError:  # if not, create a new one
+        p = Parameter(parameter_name)
+        # get LaTeX representation of coefficient and form factor names
+        _tex_a = tex_a[parameter_name.split(' ')[-1].split('_')[0]]
+        _tex_ff = tex_ff[parameter_name.split(' ')[-1].split('_')[-1]]
+        p.tex = r'$' + _tex_a + r'^{' + _tex_ff + r'}$'
+        p.description = r'BSZ form factor parametrization coefficient $' + _tex_a + r'$ of $' + _tex_ff + r'$'
+    else:  # if parameter exists, remove existing constraints
+        constraints.remove_constraint(parameter_name)
+
+
 def load_parameters(filename, process, constraints):
     implementation_name = process + ' BSZ'
     parameter_names = [implementation_name + ' ' + coeff_name for coeff_name in a_ff_string]
     # a0_f0 is not treated as independent parameter!
     parameter_names.remove(implementation_name + ' a0_f0')
     for parameter_name in parameter_names:
-        try:  # check if parameter object already exists
-            p = Parameter[parameter_name]
-        except KeyError:  # if not, create a new one
-            p = Parameter(parameter_name)
-            # get LaTeX representation of coefficient and form factor names
-            _tex_a = tex_a[parameter_name.split(' ')[-1].split('_')[0]]
-            _tex_ff = tex_ff[parameter_name.split(' ')[-1].split('_')[-1]]
-            p.tex = r'$' + _tex_a + r'^{' + _tex_ff + r'}$'
-            p.description = r'BSZ form factor parametrization coefficient $' + _tex_a + r'$ of $' + _tex_ff + r'$'
-        else:  # if parameter exists, remove existing constraints
-            constraints.remove_constraint(parameter_name)
+        _get_or_create_parameter(parameter_name, constraints)
     [central, unc, corr] = get_ffpar(filename)
     constraints.add_constraint(parameter_names,
         MultivariateNormalDistribution(central_value=central, covariance=np.outer(unc, unc)*corr))
@@ -89,4 +93,6 @@ def load_ffs_eos(filename, dict_name, regex, subst, constraints):
     covariance = np.asarray(ff_dict['covariance'])
     pattern = re.compile(regex)
     observables = [pattern.sub(subst, obs) for obs in observables]
+    for parameter_name in observables:
+        _get_or_create_parameter(parameter_name, constraints)
     constraints.add_constraint(observables, MultivariateNormalDistribution(central_value=central_values, covariance=covariance))
-- 
2.43.0


From 05850d0be4db94575ea204481d0c2b703d857239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 41/59] fix: cached parton luminosities do not follow the
 configured PDF set

---
 flavio/physics/dileptons/partondist.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/dileptons/partondist.py b/flavio/physics/dileptons/partondist.py
index 555a870..628b92b 100644
--- a/flavio/physics/dileptons/partondist.py
+++ b/flavio/physics/dileptons/partondist.py
@@ -23,8 +23,11 @@ def get_pdf(name, member=0, download=False):
             raise Exception(f"PDF set '{name}' not available. Please install the PDF set using the command \"python3 -m parton install '{name}'\"")
     return pdf
 
-@lru_cache(maxsize=None)
 def get_parton_lumi(Q2, member=0):
     pdfset = config['PDF set']['dileptons']['name']
+    return _get_parton_lumi(pdfset, Q2, member)
+
+@lru_cache(maxsize=None)
+def _get_parton_lumi(pdfset, Q2, member):
     pdf = get_pdf(pdfset, member)
     return parton.PLumi(pdf, Q2=Q2)
-- 
2.43.0


From 098c4a61ee0877ae33494740a7741d806e591514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 42/59] fix: asymmetric uncertainties of lifetimes of PDG
 particles were interchanged

---
 flavio/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/parameters.py b/flavio/parameters.py
index 6f71a22..6593c6a 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -234,8 +234,9 @@ class FlavioParticle(Particle):
         G_right = self.width_upper*1e-3
         G_left = self.width_lower*1e-3
         central = 1/G_central # life time = 1/width
-        right = G_right/G_central**2
-        left = G_left/G_central**2
+        # a larger width corresponds to a shorter life time
+        right = G_left/G_central**2
+        left = G_right/G_central**2
         return name, tex, description, central, right, left
 
 def read_pdg(year, constraints):
-- 
2.43.0


From 6398dfe8bd85db48bb06a21aa226782fac7ac6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 43/59] fix: q2 bin of the CDF 2012 B+->Kmumu measurement
 overwriting another bin

---
 flavio/data/measurements.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/data/measurements.yml b/flavio/data/measurements.yml
index 4a04f17..1bd189b 100644
--- a/flavio/data/measurements.yml
+++ b/flavio/data/measurements.yml
@@ -6087,7 +6087,7 @@ CDF B+>Kmumu 2012:
       value: 0.72 ± 0.14 ± 0.04 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 0.00
-      q2max: 2.00
+      q2max: 4.30
       value: 2.55 ± 0.38 ± 0.15 e-8
     - name: <dBR/dq2>(B+->Kmumu)
       q2min: 1.00
-- 
2.43.0


From a9e427787407d940db409bb45d345eca9ba0358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 44/59] fix: minimize_robust starts new tries from, and
 returns, the best endpoint found

---
 flavio/math/optimize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..2a54e52 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -21,6 +21,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
     """
     _val = fun(x0, *args) # initial value of target function
     _x0 = x0[:] # copy initial x
+    best = None # best result of the unsuccessful tries
     if methods is None:
         methods = ('SLSQP', 'MIGRAD', 'BFGS', 'Nelder-Mead')
     for i in range(tries):
@@ -35,11 +36,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,7 +50,9 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
-    return opt
+                _val = opt.fun
+                best = opt
+    return opt if best is None else best
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
     """Maximization of scalar function of one or more variables.
-- 
2.43.0


From eefc32923e0c99c8e0ba02e161eaa15fa10c8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 45/59] fix: pull, delta_chi2 and pvalue lose precision
 (infinite pull) at large significance

---
 flavio/statistics/functions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flavio/statistics/functions.py b/flavio/statistics/functions.py
index b638afa..248fd67 100644
--- a/flavio/statistics/functions.py
+++ b/flavio/statistics/functions.py
@@ -1,5 +1,6 @@
 """Auxiliary functions for statistics."""
 
+import numpy as np
 import scipy.stats
 from functools import lru_cache
 from math import sqrt
@@ -22,8 +23,10 @@ def delta_chi2(nsigma, dof):
         # that's trivial
         return nsigma**2
     chi2_ndof = scipy.stats.chi2(dof)
-    cl_nsigma = confidence_level(nsigma)
-    return chi2_ndof.ppf(cl_nsigma)
+    if nsigma < 1:
+        return chi2_ndof.ppf(confidence_level(nsigma))
+    # the complement of the CL retains the precision at large nsigma
+    return chi2_ndof.isf(2*scipy.stats.norm.sf(nsigma))
 
 def pull(delta_chi2, dof):
     r"""Compute the pull in Gaussian standard deviations corresponding to
@@ -37,9 +40,12 @@ def pull(delta_chi2, dof):
         return sqrt(abs(delta_chi2))
     chi2_ndof = scipy.stats.chi2(dof)
     cl_delta_chi2 = chi2_ndof.cdf(delta_chi2)
-    return scipy.stats.norm.ppf(0.5+cl_delta_chi2/2)
+    # the complement of the CL retains the precision at large delta_chi2
+    return np.where(cl_delta_chi2 < 0.5,
+                    scipy.stats.norm.ppf(0.5+cl_delta_chi2/2),
+                    scipy.stats.norm.isf(chi2_ndof.sf(delta_chi2)/2))[()]
 
 def pvalue(chi2, dof):
     r"""Compute the $p$-value corresponding to a $\chi^2$ with `dof` degrees
     of freedom."""
-    return 1 - scipy.stats.chi2.cdf(chi2, dof)
+    return scipy.stats.chi2.sf(chi2, dof)
-- 
2.43.0


From 2b49f2b8f68fc42969ca1085f84e9aac1b2a40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 46/59] fix: citations registered in cached functions depend on
 the call history

---
 flavio/physics/bdecays/matrixelements.py | 30 +++++++++++++++++++-----
 flavio/physics/running/running.py        |  6 ++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..00e47d3 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -79,9 +78,12 @@ def F_17(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -91,11 +93,14 @@ def F_19(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -105,9 +110,12 @@ def F_27(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -117,6 +125,10 @@ def F_29(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +167,14 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA_cached(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +188,14 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB_cached(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..040a599 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -204,8 +204,7 @@ def get_mc_KS(par, scale):
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
 
 
-# cached version
-@lru_cache(maxsize=config['settings']['cache size'])
+# not cached: the conversion registers citations on every call
 def _get_mc_KS(mcmc, alpha_s, scale, nl):
     return masses.mMS2mKS(MS=mcmc, Nf=3, asM=alpha_s, Mu=scale, nl=nl)
 
@@ -232,8 +231,7 @@ def get_mb_KS(par, scale):
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
 
 
-# cached version
-@lru_cache(maxsize=config['settings']['cache size'])
+# not cached: the conversion registers citations on every call
 def _get_mb_KS(mbmb, alpha_s, scale, nl):
     # see 1107.3100 for why Nf=4
     return masses.mMS2mKS(MS=mbmb, Nf=4, asM=alpha_s, Mu=scale, nl=nl)
-- 
2.43.0


From db7000c85c9b0fefd16b43735248a63ed4ddb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:35 +0000
Subject: [PATCH 47/59] fix: YAML cannot be loaded from a file without name

---
 flavio/io/yaml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/io/yaml.py b/flavio/io/yaml.py
index e51f541..3362d40 100644
--- a/flavio/io/yaml.py
+++ b/flavio/io/yaml.py
@@ -23,8 +23,9 @@ class SafeIncludeLoader(yaml.SafeLoader):
     def __init__(self, stream):
         try:
             self._root = os.path.dirname(stream.name)
-        except AttributeError:
-            # this happens when `stream` is a string
+        except (AttributeError, TypeError):
+            # this happens when `stream` is a string or has no file name
+            # (e.g. a temporary file, which has a number as `name`)
             self._root = None
         super().__init__(stream)
 
-- 
2.43.0


From 10ba6104b1d1db8147fcaf23c841025dc83cf719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 48/59] fix: covariances given as lists cannot be loaded

---
 flavio/statistics/likelihood.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 77ce4a7..1087ae3 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -428,13 +428,14 @@ class SMCovariance(object):
             raise ValueError("Covariance matrix does not contain all necessary entries")
         assert len(permutation) == len(self.observables), \
             "Covariance matrix does not contain all necessary entries"
+        covariance = np.asarray(d['covariance'])
         if len(permutation) == 1:
-            if d['covariance'].shape == ():
-                self._cov = d['covariance']
+            if covariance.shape == ():
+                self._cov = covariance
             else:
-                self._cov = d['covariance'][permutation][:,permutation][0,0]
+                self._cov = covariance[permutation][:,permutation][0,0]
         else:
-            self._cov = d['covariance'][permutation][:,permutation]
+            self._cov = covariance[permutation][:,permutation]
 
 
 class MeasurementCovariance(object):
@@ -571,8 +572,8 @@ class MeasurementCovariance(object):
             )
         else:
             self._central_cov = (
-                d['central'][permutation],
-                d['covariance'][permutation][:, permutation],
+                np.asarray(d['central'])[permutation],
+                np.asarray(d['covariance'])[permutation][:, permutation],
             )
 
 
-- 
2.43.0


From be38e3ec5efb826993f155f8f34ba07b348c6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 49/59] fix: FastLikelihood of one observable from a larger
 experimental covariance returns arrays

---
 flavio/statistics/likelihood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 1087ae3..62c85c0 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -570,6 +570,11 @@ class MeasurementCovariance(object):
                 d['central'],
                 d['covariance']
             )
+        elif len(permutation) == 1:
+            self._central_cov = (
+                np.asarray(d['central'])[permutation][0],
+                np.asarray(d['covariance'])[permutation][:, permutation][0, 0],
+            )
         else:
             self._central_cov = (
                 np.asarray(d['central'])[permutation],
-- 
2.43.0


From 8d1c02d564d5be81cd9d32302e5b649fbad7fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 50/59] fix: do not use np.complex, removed from numpy, in the
 RG evolution of Wilson coefficients

---
 flavio/physics/running/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 040a599..9e656f9 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -288,7 +288,7 @@ def make_wilson_rge_derivative(adm):
         alpha_s = x[-2]
         alpha_e = x[-1]
         c_real = x[:-2]
-        c = c_real.view(np.complex)
+        c = c_real.view(complex)
         d_alpha = betafunctions.beta_qcd_qed([alpha_s, alpha_e], mu, nf)
         d_c = np.dot(adm(nf, alpha_s, alpha_e).T, c)/mu
         d_c_real = d_c.view(float)
@@ -309,7 +309,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From e41b4b180f2ce47d46a3987c042534efa1767fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 51/59] fix: RG evolution returns its own arrays and follows
 changed flavour thresholds

---
 flavio/physics/running/running.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 9e656f9..3ced66d 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -33,11 +33,13 @@ def rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out=N
         return copy.deepcopy(initial_condition)
     if scale_out < 0.1:
         raise ValueError('RG evolution below the strange threshold not implemented.')
-    return _rg_evolve_sm(tuple(initial_condition), derivative_nf, scale_in, scale_out, nf_out)
+    thresholds = tuple(_thresholds().items())
+    # return a copy to prevent accidentally changing the cached solution
+    return _rg_evolve_sm(tuple(initial_condition), derivative_nf, scale_in, scale_out, nf_out, thresholds).copy()
 
 @lru_cache(maxsize=config['settings']['cache size'])
-def _rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out):
-    thresholds = _thresholds()
+def _rg_evolve_sm(initial_condition, derivative_nf, scale_in, scale_out, nf_out, thresholds):
+    thresholds = dict(thresholds)
     if scale_in > scale_out: # running DOWN
         # set initial values and scales
         initial_nf = initial_condition
-- 
2.43.0


From aa785d657755d59bddb3073a2d982d8d62e8a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 52/59] fix: missing complex conjugation in interference terms
 of B->Xclnu

---
 flavio/physics/bdecays/bxlnu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bxlnu.py b/flavio/physics/bdecays/bxlnu.py
index 963b10c..859bd15 100644
--- a/flavio/physics/bdecays/bxlnu.py
+++ b/flavio/physics/bdecays/bxlnu.py
@@ -37,17 +37,17 @@ def _BR_BXclnu(par, wc_obj, lep, nu):
     # of the scalar operators
     Gamma_LO = GF**2 * mb**5 / 192. / pi**3 * abs(Vcb)**2
     r_WC = (   g(xc, xl)      * (abs(wc['VL'])**2 + abs(wc['VR'])**2)
-             - gLR(xc, xl)    * (wc['VL']*wc['VR']).real
+             - gLR(xc, xl)    * (wc['VL']*wc['VR'].conjugate()).real
              + g(xc, xl)/4.   * (abs(wc['SR'])**2 + abs(wc['SL'])**2)
-             + gLR(xc, xl)/2. * (wc['SR']*wc['SL']).real
+             + gLR(xc, xl)/2. * (wc['SR']*wc['SL'].conjugate()).real
              + 12*g(xc, xl)   * abs(wc['T'])**2
              # the following terms vanish for vanishing lepton mass
-             + gVS(xc, xl)    * ((wc['VL']*wc['SR']).real
-                                       + (wc['VR']*wc['SL']).real)
-             + gVSp(xc, xl)   * ((wc['VL']*wc['SL']).real
-                                       + (wc['VR']*wc['SR']).real)
-             - 12*gVSp(xc, xl)* (wc['VL']*wc['T']).real
-             + 12*gVS(xc, xl) * (wc['VR']*wc['T']).real
+             + gVS(xc, xl)    * ((wc['VL']*wc['SR'].conjugate()).real
+                                       + (wc['VR']*wc['SL'].conjugate()).real)
+             + gVSp(xc, xl)   * ((wc['VL']*wc['SL'].conjugate()).real
+                                       + (wc['VR']*wc['SR'].conjugate()).real)
+             - 12*gVSp(xc, xl)* (wc['VL']*wc['T'].conjugate()).real
+             + 12*gVS(xc, xl) * (wc['VR']*wc['T'].conjugate()).real
            )
     # eq. (26) of arXiv:1107.3100 + corrections (P. Gambino, private communication)
     flavio.citations.register("Gambino:2011cq")
-- 
2.43.0


From 481c69f1217efa4b939c2923eb73fccb1515641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:35 +0000
Subject: [PATCH 53/59] fix: form factor in the C7-C9 interference term of
 B->llgamma

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 80a2a8d..57ca073 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -74,7 +74,7 @@ def getF1(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     fftv, ffta = getfft(s, par, B, ff, ff0, lep, wc)
-    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*ffta*_Co(wc['C9_'+label]))
+    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*fftv*_Co(wc['C9_'+label]))
 
 def getF2(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From 25cb28de839c01c27c0f2447501e12d2b85f5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:35 +0000
Subject: [PATCH 54/59] fix: charge-combined LFV decays of (pseudo)scalar
 quarkonium defined for all lepton pairs

---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..3dbb813 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -97,7 +97,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From 404b9cec3cec643c0700a6d27ad664e12e29b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:35 +0000
Subject: [PATCH 55/59] fix: sign and conjugation of the second lepton mass
 term in LFV decays of pseudoscalar quarkonium

---
 flavio/physics/quarkonium/Pll.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 3dbb813..317637f 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -34,8 +34,14 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
     else:
         ll=wc_sector[(l1,l2)]
     aPfac=1j*aP*4.*np.pi/alphas
-    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml2* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] ))  
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml1* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] )) 
+    # axial-vector couplings of the quarkonium to left- and right-handed leptons
+    AL = wc['CVLR_'+ll+qq] - wc['CVLL_'+ll+qq]
+    AR = wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll]
+    if ll==l2+l1:
+        AL = AL.conjugate()
+        AR = AR.conjugate()
+    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*AR - ml2*AL)
+    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml1*AL - ml2*AR)
     return SL,SR
 
 
-- 
2.43.0


From 35381a02dfc7c843eb6bad4c4888f4066b40604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 56/59] fix: flavour indices of the dipole coefficient in LFV
 decays of vector quarkonium

---
 flavio/physics/quarkonium/Vll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Vll.py b/flavio/physics/quarkonium/Vll.py
index 5d835ed..e8a82bb 100644
--- a/flavio/physics/quarkonium/Vll.py
+++ b/flavio/physics/quarkonium/Vll.py
@@ -36,8 +36,8 @@ def getVT_lfv(wc_obj,par,V,Q,l1,l2):
         ll=wc_sector[(l1,l2)]
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     if ll==l2+l1: 
         VL=VL.conjugate()
         VR=VR.conjugate()
-- 
2.43.0


From 51ff1879ba50a43d6da525aba5646dc396c5d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 57/59] fix: factor 1/2 for neutral rho in LFV B->rho l1 l2
 decays

---
 flavio/physics/bdecays/bvll/lfv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 223a334..793e9c5 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -63,8 +63,12 @@ def BR_tot(wc_obj, par, B, V, l1, l2):
     q2max = (mB-mV)**2
     q2min = (ml1+ml2)**2
     tauB = par['tau_'+B]
-    return tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
+    BR = tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
                           q2min, q2max, wc, par, B, V, l1, l2)
+    if V == 'rho0':
+        # factor of 1/2 for neutral rho due to rho = (uubar-ddbar)/sqrt(2)
+        BR = BR / 2.
+    return BR
 
 def BR_tot_function(B, V, l1, l2):
     return lambda wc_obj, par: BR_tot(wc_obj, par, B, V, l1, l2)
-- 
2.43.0


From c93f78fca133b886884133410f03eccc030364c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 58/59] fix: KL->pi nu nu with different neutrino flavours
 depends on both orderings of the flavours

---
 flavio/physics/kdecays/kpinunu.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kpinunu.py b/flavio/physics/kdecays/kpinunu.py
index eae4631..d57fdd7 100644
--- a/flavio/physics/kdecays/kpinunu.py
+++ b/flavio/physics/kdecays/kpinunu.py
@@ -60,8 +60,13 @@ def br_kplus_pinunu(wc_obj, par, nu1, nu2):
 def br_klong_pinunu(wc_obj, par, nu1, nu2):
     r"""Branching ratio of $K_L\pi^0\nu\bar\nu$ for fixed neutrino flavours"""
     amp = kpinunu_amplitude(wc_obj, par, nu1, nu2)
+    # amplitude with interchanged neutrino flavours: its complex conjugate is
+    # the amplitude of the other K^0 flavour eigenstate with the same final state
+    amp_ex = kpinunu_amplitude(wc_obj, par, nu2, nu1)
+    # this is the imaginary part of amp if the neutrino flavours coincide
+    amp_eff = (amp - amp_ex.conjugate()) / 2.
     Vus = abs(flavio.physics.ckm.get_ckm(par)[0,1])
-    return amp.imag**2 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
+    return abs(amp_eff)**2 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
 
 def br_kplus_pinunu_summed(wc_obj, par):
     r"""Branching ratio of $K^+\pi^+\nu\bar\nu$ summed over neutrino flavours"""
-- 
2.43.0


From 824e84a39c0754d2203d7685093b480271dc71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 59/59] fix: KL,KS->emu depend on both orderings of the lepton
 flavours, KS->emu raised UnboundLocalError

---
 flavio/physics/kdecays/kll.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index a2b0b04..87ef108 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -55,17 +55,22 @@ def amplitudes_LD(par, K, l):
 def amplitudes_eff(par, wc, K, l1, l2, ld=True):
     r"""Effective amplitudes entering the $K\to\ell_1^+\ell_2^-$ observables."""
     P, S = amplitudes(par, wc, l1, l2)
+    # for l1 != l2, the decay of the other K^0 flavour eigenstate to the same
+    # final state is determined by the Wilson coefficients with interchanged
+    # lepton flavours
+    P_ex, S_ex = amplitudes(par, wc, l2, l1)
     if l1 != l2 or not ld:
         SLD = 0
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
-    if K == 'KS' and l1 == l2:
-        Peff = P.imag
-        Seff = S.real + SLD
+    # for l1 == l2, these reduce to real and imaginary parts of P and S
+    if K == 'KS':
+        Peff = (P - P_ex.conjugate()) / 2j
+        Seff = (S + S_ex.conjugate()) / 2. + SLD
     if K == 'KL':
-        Peff = P.real + PLD
-        Seff = S.imag
+        Peff = (P + P_ex.conjugate()) / 2. + PLD
+        Seff = (S - S_ex.conjugate()) / 2j
     return Peff, Seff
 
 
@@ -81,6 +86,8 @@ def get_wc(wc_obj, par, l1, l2):
         wcsm = {'C10_sd' + l1 + l2: _c['C10_t'] + xi_c / xi_t * _c['C10_c']}
     else:
         wcsm = {}
+        # the Wilson coefficients with interchanged leptons contribute as well
+        wcnp = {**wcnp, **wc_obj.get_wc('sd' + l2 + l1, scale, par)}
 
     return add_dict((wcsm, wcnp))
 
-- 
2.43.0

