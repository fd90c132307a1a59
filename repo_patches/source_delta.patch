From 9a99b76b008004d39fe52bb8a6825f56965ac84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 01/34] fix: keep double precision in chi2 scans

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From e1db080e3a961e6c4466939d06a7ed16f9aaf309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 02/34] fix: accept integer poi_test in the approximate
 sigma_mu

---
 src/spey/base/hypotest_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..f3c5486 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -889,7 +889,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=mu if isinstance(mu, (float, int)) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
-- 
2.43.0


From 3ed7cfbf8ef0510b83cf370ddbdc3ad2b4ece6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 03/34] fix: do not overwrite the caller's initial parameters
 in fit

---
 src/spey/optimizer/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..cd54c1e 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,7 +89,8 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
+    # copy: fixed POI values are written below and must not leak to the caller
+    init_pars = list(
         initial_parameters
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
-- 
2.43.0


From 6fa0837913ad9ad0c9e890b0487b0f0186194c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 04/34] fix: do not append the backend's constraints to the
 caller's list

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..761af5f 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 7ce07658421147e14c375790fb23fdab347dc301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/34] fix: find_most_sensitive must index the stack with a
 plain integer

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..2dbf692 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -378,7 +378,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :class:`~spey.StatisticalModel`:
             The model with the minimum value of :attr:`~spey.StatisticalModel.s95exp`.
         """
-        return self[np.argmin([model.s95exp for model in self])]
+        return self[int(np.argmin([model.s95exp for model in self]))]
 
     def likelihood(
         self,
-- 
2.43.0


From 3c319dbf5145f478c0e6627abe038f9cd3e86163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 06/34] fix: raise AnalysisQueryError for negative out-of-range
 combiner indices

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2dbf692..4fb6808 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -319,7 +319,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               is out of range or the analysis name is not found in the stack.
         """
         if isinstance(item, int):
-            if item < len(self):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From 234c05c70bfc83259495a088e56fc49ecf8c9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 07/34] fix: detect overlapping groups in merge_correlated_bins

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..b22c553 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From dbc3a9dd47298e693cc95b9ea1b3b375ce964ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 08/34] fix: rescale_poi_bounds must keep the scalar upper
 bound

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..8415da2 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -187,6 +187,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From d8bf3102795f65cd911c5dcef17ae32cba1d537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 09/34] fix: fixed_poi_bounds_multi must bracket fixed non-POI
 values

---
 src/spey/base/model_config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8415da2..1a5b984 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -145,10 +145,12 @@ class ModelConfig:
             if any(b is None for b in bounds[idx]):
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+                if idx == self.poi_index:
+                    lower = self.minimum_poi if val < 0.0 else 0.0
+                    bounds[idx] = (lower, max(val + 1, lower))
+                else:
+                    # minimum_poi only limits the primary POI
+                    bounds[idx] = (min(bounds[idx][0], val - 1), max(bounds[idx][1], val + 1))
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From aef86254e0eced16db18f48ca5da95d373e46f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 10/34] fix: keep the (size, bins) shape in
 MultivariateNormal.sample

---
 src/spey/backends/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..9d0dc4d 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -147,8 +147,10 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
-            size=(sample_size,)
+        return (
+            multivariate_normal(self.mean, self.cov(value[self.domain]))
+            .rvs(size=(sample_size,))
+            .reshape(sample_size, -1)
         )
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3d12deeec2cb8fa98c6b439cbded72d6f7a73604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 11/34] fix: do not clip negative log-determinants of callable
 covariances

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 9d0dc4d..8eed138 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -125,9 +125,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From 0beac983c7386ed79fd44a37fc2cd28d28eb7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 12/34] fix: look distribution types up as case-insensitively
 as they are validated

---
 src/spey/backends/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 8eed138..7a42eab 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -275,7 +275,7 @@ class ConstraintModel:
             ], f"Unknown distribution type: {desc['distribution_type']}"
             log.debug(f"{desc}")
             self._pdfs.append(
-                distributions[desc["distribution_type"]](
+                distributions[desc["distribution_type"].lower()](
                     *desc.get("args", []), **desc.get("kwargs", {})
                 )
             )
-- 
2.43.0


From eff6f390a292282679bfad1aac0b9d8c7722c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 13/34] fix: sample constraint terms at the full parameter
 vector their domains refer to

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..c6f640f 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -733,7 +733,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From df6ccf701087da485215d4ecb60141f2668141f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 14/34] fix: Poisson positivity constraint must scale the
 nuisances by the uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..fcb4eec 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -604,7 +604,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 59c0d012cc70d13abe2bb9332b84c1d6bd1e2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 15/34] fix: keep the negative POI domain when config gets a
 custom upper bound

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index c6f640f..5acbbcd 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,8 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index fcb4eec..d691c8c 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,8 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 9a1e551a473bbf2308ca6bb8a62d205ce96cf1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 16/34] fix: detect unimplemented calculators by comparing
 class functions

---
 src/spey/interface/statistical_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 761af5f..533e49b 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -228,10 +228,12 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
+        # compare the functions on the class: bound methods never equal plain functions
+        backend = type(self.backend)
+        return backend.expected_data != BackendBase.expected_data or (
+            backend.asimov_negative_loglikelihood
             != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
+            and backend.minimize_asimov_negative_loglikelihood
             != BackendBase.minimize_asimov_negative_loglikelihood
         )
 
@@ -246,7 +248,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return type(self.backend).get_sampler != BackendBase.get_sampler
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 44ac57084153bdde0ee78f6c6c73e50cd299e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 17/34] fix: serve backends added with register_backend

---
 src/spey/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..474ad98 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,7 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +344,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 709068491558c737841a98ba5abff4b22b2dd0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 18/34] fix: keep in-flight cache entries through eviction and
 cache_clear

---
 src/spey/system/cache.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..749e8e3 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -268,7 +268,6 @@ class _PerInstanceCacheDescriptor:
                     event = threading.Event()
                     events[key] = event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -284,7 +283,6 @@ class _PerInstanceCacheDescriptor:
                 with lock:
                     if cache.get(key) is _COMPUTING:
                         del cache[key]
-                        order.remove(key)
                     evt = events.pop(key, None)
                 if evt is not None:
                     evt.set()
@@ -292,8 +290,10 @@ class _PerInstanceCacheDescriptor:
 
             with lock:
                 cache[key] = result
+                # only finished entries are evicted or cleared: waiters rely on in-flight ones
+                order.append(key)
                 if maxsize is not None:
-                    while len(cache) > maxsize:
+                    while len(order) > maxsize:
                         oldest = order.popleft()
                         cache.pop(oldest, None)
                 evt = events.pop(key, None)
@@ -305,9 +305,8 @@ class _PerInstanceCacheDescriptor:
         def cache_clear() -> None:
             """Remove all cached entries for this instance."""
             with lock:
-                cache.clear()
-                order.clear()
-                events.clear()
+                while order:
+                    cache.pop(order.popleft(), None)
 
         def cache_info() -> dict:
             """Return a snapshot of the cache state for this instance."""
@@ -433,7 +432,6 @@ def cache_results(
                     event = threading.Event()
                     events[key] = event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -454,7 +452,6 @@ def cache_results(
                 with lock:
                     if cache.get(key) is _COMPUTING:
                         del cache[key]
-                        order.remove(key)
                     evt = events.pop(key, None)
                 if evt is not None:
                     evt.set()  # wake up waiters
@@ -463,9 +460,11 @@ def cache_results(
             # ---- store result (under lock) ---------------------------------
             with lock:
                 cache[key] = result
+                # only finished entries are evicted or cleared: waiters rely on in-flight ones
+                order.append(key)
                 # Evict oldest entries if maxsize is exceeded.
                 if maxsize is not None:
-                    while len(cache) > maxsize:
+                    while len(order) > maxsize:
                         oldest = order.popleft()
                         cache.pop(oldest, None)
                 evt = events.pop(key, None)
@@ -478,9 +477,8 @@ def cache_results(
         def cache_clear() -> None:
             """Remove all cached entries."""
             with lock:
-                cache.clear()
-                order.clear()
-                events.clear()
+                while order:
+                    cache.pop(order.popleft(), None)
 
         def cache_info() -> dict:
             """Return a snapshot of the cache state."""
-- 
2.43.0


From 49d483858cce3180fb0bacbcdbc92e413d7cc67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 19/34] fix: accept dictionaries with mixed key types in cached
 calls

---
 src/spey/system/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 749e8e3..d2d3d90 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> frozenset of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -96,7 +96,8 @@ def _make_token(obj: Any) -> Any:
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # keys need not be mutually orderable, e.g. parameter names and indices
+        return frozenset((_make_token(k), _make_token(v)) for k, v in obj.items())
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From 0ffa2f2f7a1425621cec16fd275c93e1e72ce06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 20/34] fix: retry fits with open bounds in the scipy minimiser

---
 src/spey/optimizer/scipy_tools.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..de6178d 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,15 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
+            # An open bound (None) can not be expanded any further.
+            for bdx, (low, up) in enumerate(bounds or []):
                 if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
+                    bounds[bdx] = (low, None if up is None else up * 2.0)
                 else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+                    bounds[bdx] = (
+                        None if low is None else min(low, low * 10.0),
+                        None if up is None else up * 10.0,
+                    )
         elif opt.success:
             break
 
-- 
2.43.0


From ad544ac4323c59279d622b7840c107ab78ebccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 21/34] fix: profile contours of models with nonlinear
 constraints

---
 src/spey/multiparameter/contour.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..93d7ddf 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,12 +600,19 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
+                is_dict = isinstance(c, dict)
+                orig_fun = c["fun"] if is_dict else c.fun
 
                 def _wrapped(pp, _f=orig_fun, _cp=cp):
                     return _f(_assemble(_cp, pp))
 
-                constraints.append({**c, "fun": _wrapped})
+                if is_dict:
+                    # the jacobian, if any, is with respect to the full vector
+                    constraints.append(
+                        {**{k: v for k, v in c.items() if k != "jac"}, "fun": _wrapped}
+                    )
+                else:
+                    constraints.append(NonlinearConstraint(_wrapped, c.lb, c.ub))
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 6ad500ddf3a781a6440a696f2fe995390a285ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 22/34] fix: place the contour at half the chi-square quantile
 above the minimum NLL

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 93d7ddf..79e76ea 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -683,7 +683,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + 0.5 * delta
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From de65376e9854f052bc26b0bfc94cdc655124250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 23/34] fix: rename parameters simultaneously and keep the
 names unique

---
 src/spey/base/model_config.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 1a5b984..3d72cb8 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -155,14 +155,13 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
+        for old in name_map:
             if old not in self.parameter_names:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        new_names = [name_map.get(name, name) for name in self.parameter_names]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        self.parameter_names[:] = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From c4e58c33c4de413bd15c0d5146a0dda3c8f8098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 24/34] fix: never shrink negative upper bounds when a fit is
 retried

---
 src/spey/optimizer/scipy_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index de6178d..02f2573 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -122,11 +122,11 @@ def minimize(
             # An open bound (None) can not be expanded any further.
             for bdx, (low, up) in enumerate(bounds or []):
                 if bdx == poi_index:
-                    bounds[bdx] = (low, None if up is None else up * 2.0)
+                    bounds[bdx] = (low, None if up is None else max(up, up * 2.0))
                 else:
                     bounds[bdx] = (
                         None if low is None else min(low, low * 10.0),
-                        None if up is None else up * 10.0,
+                        None if up is None else max(up, up * 10.0),
                     )
         elif opt.success:
             break
-- 
2.43.0


From ddbce34a26bd206f37d7d4d6fb7da27665fd207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 25/34] fix: accept lists as explicit data in the default back
 ends

---
 src/spey/backends/default_pdf/__init__.py   | 6 +++---
 src/spey/backends/default_pdf/simple_pdf.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 5acbbcd..0153482 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -586,7 +586,7 @@ class DefaultPDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
         log.debug(f"Data: {data}")
 
         def negative_loglikelihood(pars: np.ndarray) -> np.ndarray:
@@ -639,7 +639,7 @@ class DefaultPDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
         log.debug(f"Data: {data}")
 
         return lambda pars: self.main_model.log_prob(
@@ -684,7 +684,7 @@ class DefaultPDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
         log.debug(f"Data: {data}")
 
         def log_prob(pars: np.ndarray) -> np.ndarray:
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index d691c8c..7575960 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -368,7 +368,7 @@ class SimplePDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
 
         def negative_loglikelihood(pars: np.ndarray) -> np.ndarray:
             """Compute twice negative log-likelihood"""
@@ -415,7 +415,7 @@ class SimplePDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
 
         return lambda pars: self.main_model.log_prob(pars, data)
 
@@ -457,7 +457,7 @@ class SimplePDFBase(BackendBase):
         current_data = (
             self.background_yields if expected == ExpectationType.apriori else self.data
         )
-        data = current_data if data is None else data
+        data = current_data if data is None else np.array(data)
 
         def log_prob(pars: np.ndarray) -> np.ndarray:
             """Compute log-probability"""
-- 
2.43.0


From 8dd4625dff7b42869931893d30d9984b63a89d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 26/34] fix: copies of an instance no longer share its
 per-instance cache

---
 src/spey/system/cache.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index d2d3d90..c9c21e2 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -199,14 +199,29 @@ class _PerInstanceCacheDescriptor:
         except AttributeError:
             return self._get_fallback(obj)
         wrapper = inst_dict.get(self._name)
-        if wrapper is None:
+        # copies of an instance inherit its __dict__ and with it the callable
+        # bound to the original, which must not serve the copy.
+        if wrapper is None or getattr(wrapper, "__self__", obj) is not obj:
             wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
+            wrapper.__self__ = obj
             inst_dict[self._name] = wrapper
         return wrapper
 
+    def __set__(self, obj: Any, value: Any) -> None:
+        # data descriptor: lookups always pass through __get__
+        try:
+            obj.__dict__[self._name] = value
+        except AttributeError as err:
+            raise AttributeError(
+                f"'{type(obj).__name__}' object attribute '{self._name}' is read-only"
+            ) from err
+
+    def __delete__(self, obj: Any) -> None:
+        try:
+            del obj.__dict__[self._name]
+        except (AttributeError, KeyError) as err:
+            raise AttributeError(self._name) from err
+
     def _get_fallback(self, obj: Any) -> Callable:
         """Fallback for ``__slots__``-only classes without ``__dict__``."""
         obj_id = id(obj)
-- 
2.43.0


From ae876bfdbeabd8888b18d19d3084001b577dc6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 27/34] fix: cache keys of object arrays depend on their
 content

---
 src/spey/system/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index c9c21e2..174651c 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -90,6 +90,9 @@ def _make_token(obj: Any) -> Any:
     2. **Hashable** -- the token can be used inside a ``dict`` key tuple.
     """
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            # the buffer only holds references, not the content
+            return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
         buf = np.ascontiguousarray(obj)
-- 
2.43.0


From b22765fdae3592ebe8ed4993d76c395ff702fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 28/34] fix: dictionaries and sets of pairs no longer share a
 cache key

---
 src/spey/system/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 174651c..a3e5f96 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> frozenset of ``(key_token, value_token)`` pairs.
+* ``dict`` -> ``dict`` and a frozenset of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -100,7 +100,8 @@ def _make_token(obj: Any) -> Any:
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
         # keys need not be mutually orderable, e.g. parameter names and indices
-        return frozenset((_make_token(k), _make_token(v)) for k, v in obj.items())
+        items = frozenset((_make_token(k), _make_token(v)) for k, v in obj.items())
+        return (dict, items)  # not to be confused with a set of pairs
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From 1aa1afa56f2d82d12ab4ec36573714636059d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 29/34] fix: importing spey no longer needs a home directory

---
 src/spey/system/webutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..29424c7 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import os
 import pathlib
 from datetime import datetime, timezone
 from platform import python_version
@@ -82,7 +83,9 @@ def get_bibtex(
         return ""
 
 
-_SPEY_DIR = pathlib.Path.home() / ".spey"
+# Path.home() raises if the home directory is unknown, which must not prevent the
+# import; an unexpanded "~" is simply not found by the functions below.
+_SPEY_DIR = pathlib.Path(os.path.expanduser("~")) / ".spey"
 _CACHE_MAX_AGE_SECONDS = 86_400  # 24 hours
 
 
-- 
2.43.0


From 8c627d1fdc674e912094c7d922c492adf0ce02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 30/34] fix: end RATTLE chains that leave the contour

---
 src/spey/multiparameter/contour.py | 38 ++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 79e76ea..fc93ac4 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1760,6 +1760,26 @@ def _rattle_walk(
         n = np.linalg.norm(raw)
         return raw / n if n > 1e-15 else raw
 
+    def _is_contour_point(theta_: np.ndarray) -> bool:
+        r"""
+        Whether *theta_* is a finite point within the bounds that lies on
+        :math:`\mathrm{NLL}(\theta) = T`, i.e. the projection has converged.
+        """
+        if not np.all(np.isfinite(theta_)):
+            return False
+        if bounds is not None and any(
+            (lo is not None and theta_[i] < lo) or (hi is not None and theta_[i] > hi)
+            for i, (lo, hi) in enumerate(bounds)
+        ):
+            return False
+        # a looser tolerance than the projection leaves room for the numerical
+        # noise of the profiled likelihood; comparison is false for NaN
+        return bool(abs(nll_scalar(theta_) - threshold) <= max(tol, 1e-6))
+
+    if not _is_contour_point(theta):
+        log.debug("RATTLE chain can not be started on the contour; terminating.")
+        return np.empty((0, k), dtype=float)
+
     p = _tangent_momentum(theta)
     resample_every = max(1, n_steps // 5)
 
@@ -1784,16 +1804,14 @@ def _rattle_walk(
             log.debug("RATTLE step failed at step %d; terminating chain.", step)
             break
 
-        # Terminate if any parameter has left its allowed range
-        if bounds is not None:
-            if any(
-                (lo is not None and theta[i] < lo) or (hi is not None and theta[i] > hi)
-                for i, (lo, hi) in enumerate(bounds)
-            ):
-                log.debug(
-                    "RATTLE chain left parameter bounds at step %d; terminating.", step
-                )
-                break
+        # Terminate if the chain has left the allowed range or the contour
+        if not _is_contour_point(theta):
+            log.debug(
+                "RATTLE chain left the contour or the parameter bounds at step %d; "
+                "terminating.",
+                step,
+            )
+            break
 
         trajectory.append(theta.copy())
 
-- 
2.43.0


From 1a33d191107a13b6977575037e79e397323602d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 31/34] fix: count repeated contour parameters once

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index fc93ac4..86c5cac 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -445,7 +445,7 @@ def find_contour(
     if poi_indices is None:
         contour_indices: List[int] = all_signal_indices
     else:
-        contour_indices: List[int] = sorted(i for i in poi_indices if i != poi_idx)
+        contour_indices: List[int] = sorted(set(i for i in poi_indices if i != poi_idx))
 
     # Profile (nuisance) parameter indices: non-mu parameters NOT in the
     # contour subspace.  These are minimised at every NLL evaluation so
-- 
2.43.0


From bc037d853cbb55874ab63b4f300acdac3ccfdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 32/34] fix: evaluations of one multivariate-normal model no
 longer share the mean

---
 src/spey/backends/distributions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 7a42eab..612484f 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -1,5 +1,6 @@
 """Autograd based differentiable distribution classes"""
 
+import copy
 import logging
 from typing import Any, Callable, Dict, List, Literal, Union
 
@@ -200,13 +201,14 @@ class MainModel:
             else:
                 # Non-callable cov: inv(cov) and logdet(cov) are constant.
                 # Create a single MultivariateNormal once so those O(n³) ops run
-                # exactly once at construction time.  Each call only updates the
-                # mean (loc(pars)) in-place; _inv_cov and _logdet_cov stay cached.
+                # exactly once at construction time.  Each call gets a shallow copy
+                # with its own mean (loc(pars)); _inv_cov and _logdet_cov stay cached.
                 _mv = MultivariateNormal(mean=np.zeros(len(cov)), cov=cov)
 
                 def _static_cov_pdf(pars):
-                    _mv.mean = loc(pars)
-                    return _mv
+                    pdf = copy.copy(_mv)
+                    pdf.mean = loc(pars)
+                    return pdf
 
                 self._pdf = _static_cov_pdf
         else:
-- 
2.43.0


From c87b8ea29a8e500243f71f670719915ca4cf18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 33/34] fix: the upper limit accepts the expectation type by
 its text, like the other computations

---
 src/spey/hypothesis_testing/upper_limits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..62550da 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -173,7 +173,7 @@ def find_poi_upper_limit(
         "1sigma",
         "2sigma",
     ], f"Unknown pvalue range {expected_pvalue}"
-    if expected is ExpectationType.observed:
+    if expected == ExpectationType.observed:
         expected_pvalue = "nominal"
     test_stat = "q" if allow_negative_signal else "qtilde"
 
@@ -201,7 +201,7 @@ def find_poi_upper_limit(
 
     result = []
     index_range = {
-        "nominal": [0 if expected is ExpectationType.observed else 2],
+        "nominal": [0 if expected == ExpectationType.observed else 2],
         "1sigma": range(1, 4),
         "2sigma": range(0, 5),
     }
-- 
2.43.0


From 92eb3dda1622a255764b8531eba9d800a717c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:35 +0000
Subject: [PATCH 34/34] fix: bounds open on one side are adjusted to contain
 the fixed value as well

---
 src/spey/base/model_config.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 3d72cb8..ab4e3aa 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -76,9 +76,9 @@ class ModelConfig:
         if poi_value is None:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
-        if any(b is None for b in bounds[self.poi_index]):
-            return bounds
-        if not bounds[self.poi_index][0] < poi_value < bounds[self.poi_index][1]:
+        low, up = bounds[self.poi_index]
+        # None stands for an open side
+        if (low is not None and poi_value <= low) or (up is not None and poi_value >= up):
             bounds[self.poi_index] = (
                 self.minimum_poi if poi_value < 0.0 else 0.0,
                 max([poi_value + 1, self.minimum_poi if poi_value < 0.0 else 0.0]),
@@ -142,15 +142,18 @@ class ModelConfig:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
-            if any(b is None for b in bounds[idx]):
-                continue
-            if not bounds[idx][0] < val < bounds[idx][1]:
+            low, up = bounds[idx]
+            # None stands for an open side
+            if (low is not None and val <= low) or (up is not None and val >= up):
                 if idx == self.poi_index:
                     lower = self.minimum_poi if val < 0.0 else 0.0
                     bounds[idx] = (lower, max(val + 1, lower))
                 else:
                     # minimum_poi only limits the primary POI
-                    bounds[idx] = (min(bounds[idx][0], val - 1), max(bounds[idx][1], val + 1))
+                    bounds[idx] = (
+                        None if low is None else min(low, val - 1),
+                        None if up is None else max(up, val + 1),
+                    )
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0

