From dad3a7d3fc5a2bc717e7d5605198ca5b069ce568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:07 +0000
Subject: [PATCH 01/56] fix: resolve negative Dataset indices against the whole
 dataset

A negative index was looked up in the first shard only, so ds[-1] returned
the last row of the first shard instead of the last row of the dataset.
---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..e58b50b 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -104,6 +104,10 @@ class Dataset:
 
     def __getitem__(self, idx: int) -> Tuple[Array, Array]:
         """Return ``(x[idx], z[idx])`` without full-array concatenation."""
+        if not -self.size <= idx < self.size:
+            raise IndexError("Dataset index out of range")
+        if idx < 0:
+            idx = idx + self.size
         shard_idx = bisect.bisect_right(self._shard_bounds, idx)
         start = 0 if shard_idx == 0 else self._shard_bounds[shard_idx - 1]
         local_idx = idx - start
-- 
2.43.0


From dd5d2b1611629b58bfc5af4c856b952137f5096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:08 +0000
Subject: [PATCH 02/56] fix: skip empty shards in Dataset minimum and maximum

Mean and variance accept empty shards; the extrema raised on them.
---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index e58b50b..5e9ab5e 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -227,6 +227,8 @@ class Dataset:
         lst = getattr(self, f"{x_or_z}_list")
         first = True
         for data in lst:
+            if data.shape[0] == 0:
+                continue
             shard_min = gnp.min(data, axis=0)
             if first:
                 global_min = shard_min
@@ -239,6 +241,8 @@ class Dataset:
         lst = getattr(self, f"{x_or_z}_list")
         first = True
         for data in lst:
+            if data.shape[0] == 0:
+                continue
             shard_max = gnp.max(data, axis=0)
             if first:
                 global_max = shard_max
-- 
2.43.0


From 8b331a54c9d839aa7e09dcd6c0c4f575dc9ec2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:08 +0000
Subject: [PATCH 03/56] fix: cut k-fold indices explicitly instead of through
 gnp.split

The torch split treats a list of bounds whose sum equals the length as
section sizes, so k_fold_indices(9, 3) lost folds with the torch backend.
---
 gpmp/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 5e9ab5e..ca03d09 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -197,7 +197,9 @@ class Dataset:
             ]
         )
         bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        starts = [0] + [int(b) for b in bounds]
+        ends = starts[1:] + [n_samples]
+        folds = [idx[s:e] for s, e in zip(starts, ends)]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From 40e09262e20c31842887a00e958b3126e7379cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:31 +0000
Subject: [PATCH 04/56] fix: use the population standard deviation in scalers
 on both backends

Tensor.std is the unbiased estimate, so the torch backend standardised to a
different scale than numpy and returned NaN for a single row.
---
 gpmp/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index ca03d09..cafd6f6 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -565,7 +565,10 @@ class Normalizer:
 
     @staticmethod
     def fit(x: Array) -> "Normalizer":
-        return Normalizer(x.mean(axis=0, keepdims=True), x.std(axis=0, keepdims=True))
+        x = gnp.asarray(x)
+        return Normalizer(
+            gnp.mean(x, axis=0, keepdims=True), gnp.std(x, axis=0, keepdims=True)
+        )
 
 
 class RobustScaler:
@@ -637,7 +640,8 @@ class ObservationScaler:
 
     @staticmethod
     def fit(z: Array) -> "ObservationScaler":
-        return ObservationScaler(z.mean(), z.std())
+        z = gnp.asarray(z)
+        return ObservationScaler(gnp.mean(z), gnp.std(z))
 
 
 # ======================================================================
-- 
2.43.0


From 1a1b9d4d82d4d35b65f7a58e2e0e5de7c476769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:31 +0000
Subject: [PATCH 05/56] fix: end an infinite loader that has no batch to
 deliver

With drop_last and a batch size above the dataset size, iterating an
infinite loader looped forever without yielding.
---
 gpmp/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index cafd6f6..22f0237 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -412,7 +412,7 @@ class DataLoader:
                 yield self._fetch_batch(batch_idx)
 
             self._epoch += 1
-            if not self._infinite:
+            if not self._infinite or len(self) == 0:
                 break
 
     def _fetch_batch(self, batch_idx: Idx) -> Tuple[Array, Array]:
-- 
2.43.0


From 3581497a31132b0e1acec70a329fd333337dcd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 06/56] fix: store parameter values as floats

A Param built from integers kept an integer array, so later edits were
silently truncated to whole numbers.
---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6cb37c2..bc8de10 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,7 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values)
+        self._values = gnp.asarray(new_values, dtype=gnp.get_dtype())
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From 6f05d2c5ede26371109b9c68346987994a3c38f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 07/56] fix: refuse a parameter vector of the wrong length

Assigning Param.values with another length left names, paths, bounds and
normalizations out of step with the values.
---
 gpmp/parameter/param.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index bc8de10..ce96c07 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,10 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values, dtype=gnp.get_dtype())
+        new_values = gnp.asarray(new_values, dtype=gnp.get_dtype())
+        if hasattr(self, "_values") and len(new_values) != self.dim:
+            raise ValueError("Mismatch in size for values.")
+        self._values = new_values
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From a5510396193a67fb4a0118134087bf488f039793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 08/56] fix: resolve all names before setting unnormalized
 parameters

An unknown name raised only after the names before it had been written.
---
 gpmp/parameter/param.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index ce96c07..2f86796 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -219,8 +219,8 @@ class Param:
             self._values[idx] = val
 
     def set_from_unnormalized(self, **kwargs: float) -> None:
-        for name, val in kwargs.items():
-            idx = self.names.index(name)
+        indices = [self.names.index(name) for name in kwargs]
+        for idx, val in zip(indices, kwargs.values()):
             self._values[idx] = self._normalize(val, self.normalizations[idx])
             
     def check_bounds(self) -> List[bool]:
-- 
2.43.0


From ae5a6e3f342a6c271faee6cbd1121e7aa48ce838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:17 +0000
Subject: [PATCH 09/56] fix: return a copy from Param.get_by_name with the
 torch backend

Indexing a tensor gives a view, so the returned scalar changed with later
edits although no view was requested.
---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 2f86796..6c1481a 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -179,7 +179,7 @@ class Param:
         self, name: str, return_view: bool = False
     ) -> Union[float, gnp.ndarray]:
         idx = self.names.index(name)
-        return self._values[idx : idx + 1] if return_view else self._values[idx]
+        return self._values[idx : idx + 1] if return_view else self._values[[idx]][0]
 
     def set_by_name(self, name: str, new_value: float) -> None:
         idx = self.names.index(name)
-- 
2.43.0


From 727d7c09f1d9b7ef26c828261cb101a5729d4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:17 +0000
Subject: [PATCH 10/56] fix: return copies from Param.to_dict with the torch
 backend

The dictionary held views of the parameter tensor.
---
 gpmp/parameter/param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6c1481a..55d7aaa 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -255,9 +255,10 @@ class Param:
         return Param(values, paths, normalizations, names, bounds)
 
     def to_dict(self) -> Dict[str, Dict[str, Any]]:
+        values = gnp.copy(self._values)
         return {
             self.names[i]: {
-                "value": self._values[i],
+                "value": values[i],
                 "path": self.paths[i],
                 "normalization": self.normalizations[i].value,
                 "denormalized": self.denormalized_values[i],
-- 
2.43.0


From e70caae353c113912bb84a8e8869f895d37e8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:17 +0000
Subject: [PATCH 11/56] fix: accept a column of observations when conditioning
 with a parameterized mean

A (n, 1) array was broadcast against the prior mean into an (n, n) array.
---
 gpmp/core/sample_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/core/sample_paths.py b/gpmp/core/sample_paths.py
index 343b84c..ea55dfb 100644
--- a/gpmp/core/sample_paths.py
+++ b/gpmp/core/sample_paths.py
@@ -155,7 +155,7 @@ def conditional_sample_paths_parameterized_mean(
         Conditional sample paths at prediction points xt, adjusted for a parameterized mean.
     """
     xi_ = gnp.asarray(xi)
-    zi_ = gnp.asarray(zi)
+    zi_ = gnp.asarray(zi).reshape(-1)
     xt_ = gnp.asarray(xt)
     ztsim_ = gnp.asarray(ztsim)
 
-- 
2.43.0


From 0ed054a64b7e4f885cc7e305307ae231bea655c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:17 +0000
Subject: [PATCH 12/56] fix: accept a model whose covariance parameters are a
 list in Fisher information

---
 gpmp/core/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/core/fisher.py b/gpmp/core/fisher.py
index 3a0859c..c0db376 100644
--- a/gpmp/core/fisher.py
+++ b/gpmp/core/fisher.py
@@ -46,7 +46,7 @@ def fisher_information(model, xi, covparam=None, epsilon: float = 1e-3):
     3) This method can be computationally expensive for high-dimensional parameter spaces,
        but is robust when autodiff faces numerical instabilities.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = gnp.asarray(model.covparam if covparam is None else covparam)
     p = theta.shape[0]
     I = gnp.empty((p, p))
 
@@ -105,7 +105,7 @@ def fisher_information_cpd(model, xi, covparam=None, epsilon: float = 1e-3):
     I : (p, p) array
         Fisher information matrix.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = gnp.asarray(model.covparam if covparam is None else covparam)
     p = theta.shape[0]
 
     # Build base covariance
-- 
2.43.0


From 6b322f1153b32ed6310d0bc6be71a62c01e20422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:39 +0000
Subject: [PATCH 13/56] =?UTF-8?q?fix:=20Mat=C3=A9rn=20kernels=20of=20order?=
 =?UTF-8?q?=20two=20and=20more=20vanish=20at=20very=20large=20distances?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The polynomial factor overflowed and gave NaN for infinite distances and
for finite ones from about 1e40 on.
---
 gpmp/kernel/matern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/kernel/matern.py b/gpmp/kernel/matern.py
index 8ce0002..3950ff8 100644
--- a/gpmp/kernel/matern.py
+++ b/gpmp/kernel/matern.py
@@ -52,7 +52,9 @@ def maternp_kernel(p: int, h):
         Kernel values.
     """
     gln = gnp.compute_gammaln(p)  # expects integer table access
-    h = gnp.inftobigf(h)
+    # beyond 1e4 the exponential factor is zero; larger distances would only
+    # overflow the polynomial
+    h = gnp.minimum(h, 1e4)
     c = 2.0 * sqrt(p + 0.5)
     twoch = 2.0 * c * h
     polynomial = gnp.ones(h.shape)
-- 
2.43.0


From 0b09297d2cce1c93b61698b9cf2016f766a4f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:39 +0000
Subject: [PATCH 14/56] fix: do not hand out the cached log-gamma table itself

The returned slice was a view, so a caller modifying it changed every
kernel computed afterwards.
---
 gpmp/num/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/shared.py b/gpmp/num/shared.py
index 789dba9..fe4e49f 100644
--- a/gpmp/num/shared.py
+++ b/gpmp/num/shared.py
@@ -38,7 +38,7 @@ def compute_gammaln(up_to_p: int) -> ArrayLike:
         table = gnp.concatenate((table, tail))
         cache["table"] = table
 
-    return table[:n]
+    return gnp.copy(table[:n])
 
 
 def derivative_finite_diff(
-- 
2.43.0


From 1d1887f7edb867b43b657c74bb2f8f68c8c33b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:04 +0000
Subject: [PATCH 15/56] fix: list existing names in gpmp.kernel.__all__

"from gpmp.kernel import *" raised AttributeError.
---
 gpmp/kernel/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/kernel/__init__.py b/gpmp/kernel/__init__.py
index c638b1a..f2dbda5 100644
--- a/gpmp/kernel/__init__.py
+++ b/gpmp/kernel/__init__.py
@@ -126,10 +126,10 @@ __all__ = [
     "neglog_f_logrho",
     "log_prior_logrho_barrier_linear",
     "log_prior_reference",
-    "neg_log_restricted_posterior_with_power_law_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_prior",
+    "neg_log_restricted_posterior_power_laws_prior",
+    "neg_log_restricted_posterior_logsigma2_prior",
     "neg_log_restricted_posterior_with_logrho_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_and_logrho_prior",
+    "neg_log_restricted_posterior_logsigma2_and_logrho_prior",
     # Bounds
     "empirical_bounds_factory",
 ]
-- 
2.43.0


From 73f99db690fea6ba1ca5b0e8956dce820be8878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 16/56] fix: return the best evaluated parameters when the
 optimizer ends on NaN

---
 gpmp/kernel/parameter_selection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..e3b122a 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -259,11 +259,13 @@ def autoselect_parameters(
         options=options,
     )
 
-    # ensure returning best seen
-    if r.fun > best_criterion:
-        r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
-    else:
-        r.best_value_returned = True
+    # ensure returning best seen: the solver may end on a worse value or on NaN,
+    # or report a value it obtained at another point
+    r.best_value_returned = bool(r.fun <= best_criterion)
+    if best_params is not None:
+        r.x, r.fun = best_params, best_criterion
+    else:  # no usable value was ever obtained: stay at the first evaluated point
+        r.x, r.fun = history_params[0], history_criterion[0]
 
     r.history_params = history_params
     r.history_criterion = history_criterion
-- 
2.43.0


From 361e8df7c7a2f30c0a8474352e9c31dda36162c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:30 +0000
Subject: [PATCH 17/56] fix: refuse a mini-batch gradient at a point other than
 the evaluated one

---
 gpmp/num/torch_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..303207b 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -643,7 +643,8 @@ class BatchDifferentiableSelectionCriterion:
         self.bpe = int(batches_per_eval)
 
         self._batch_iter = iter(loader) if self.bpe > 0 else None
-        self._gradient = None  # cached grad from last evaluate
+        self._gradient = None  # cached grad from last evaluate_pre_grad
+        self._param = None  # point of the cached grad
 
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
@@ -709,12 +710,17 @@ class BatchDifferentiableSelectionCriterion:
             total /= n
             grad /= n
         self._gradient = grad.detach()
+        self._param = p.detach().clone()
         return total
 
     # -----------------------------------------------------------------
     def gradient(self, _param: TensorLike) -> torch.Tensor:
         if self._gradient is None:
-            raise RuntimeError("Call `evaluate` first.")
+            raise RuntimeError("Call `evaluate_pre_grad` first.")
+        if not torch.equal(asarray(_param), self._param):
+            raise ValueError(
+                "The input in 'gradient' must be the same as in 'evaluate_pre_grad'"
+            )
         return self._gradient
 
 
-- 
2.43.0


From 0b9158c0370419160deb81b55ab36c84160159fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:05 +0000
Subject: [PATCH 18/56] fix: change prior defaults only when every requested
 value is admissible

---
 gpmp/kernel/prior_defaults.py | 48 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/gpmp/kernel/prior_defaults.py b/gpmp/kernel/prior_defaults.py
index dd0621c..92b9e16 100644
--- a/gpmp/kernel/prior_defaults.py
+++ b/gpmp/kernel/prior_defaults.py
@@ -87,29 +87,30 @@ def set_default_prior_hyperparameters(
         Range-based safeguard factor for ``logrho_min`` construction.
         Must be > 0.
     """
+    # validate everything before changing anything
+    new = {}
     if gamma is not None:
-        gamma = float(gamma)
-        if gamma <= 1.0:
+        new["gamma"] = float(gamma)
+        if not new["gamma"] > 1.0:
             raise ValueError("gamma must be > 1.")
-        _PRIOR_DEFAULTS.gamma = gamma
 
     if sigma2_coverage is not None:
-        sigma2_coverage = float(sigma2_coverage)
-        if not (0.0 < sigma2_coverage < 1.0):
+        new["sigma2_coverage"] = float(sigma2_coverage)
+        if not (0.0 < new["sigma2_coverage"] < 1.0):
             raise ValueError("sigma2_coverage must be in (0, 1).")
-        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
 
     if alpha is not None:
-        alpha = float(alpha)
-        if alpha <= 0.0:
+        new["alpha"] = float(alpha)
+        if not new["alpha"] > 0.0:
             raise ValueError("alpha must be > 0.")
-        _PRIOR_DEFAULTS.alpha = alpha
 
     if rho_min_range_factor is not None:
-        rho_min_range_factor = float(rho_min_range_factor)
-        if rho_min_range_factor <= 0.0:
+        new["rho_min_range_factor"] = float(rho_min_range_factor)
+        if not new["rho_min_range_factor"] > 0.0:
             raise ValueError("rho_min_range_factor must be > 0.")
-        _PRIOR_DEFAULTS.rho_min_range_factor = rho_min_range_factor
+
+    for name, value in new.items():
+        setattr(_PRIOR_DEFAULTS, name, value)
 
 
 def set_default_prior_hyperparameters_from_kwargs(kwargs):
@@ -121,18 +122,17 @@ def set_default_prior_hyperparameters_from_kwargs(kwargs):
     ``prior_logrho_alpha``, ``prior_logrho_min_range_factor``.
     Recognized keys are removed from ``kwargs``.
     """
-    if "prior_logsigma2_gamma" in kwargs:
-        set_default_prior_hyperparameters(gamma=kwargs.pop("prior_logsigma2_gamma"))
-    if "prior_logsigma2_coverage" in kwargs:
-        set_default_prior_hyperparameters(
-            sigma2_coverage=kwargs.pop("prior_logsigma2_coverage")
-        )
-    if "prior_logrho_alpha" in kwargs:
-        set_default_prior_hyperparameters(alpha=kwargs.pop("prior_logrho_alpha"))
-    if "prior_logrho_min_range_factor" in kwargs:
-        set_default_prior_hyperparameters(
-            rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor")
-        )
+    names = {
+        "prior_logsigma2_gamma": "gamma",
+        "prior_logsigma2_coverage": "sigma2_coverage",
+        "prior_logrho_alpha": "alpha",
+        "prior_logrho_min_range_factor": "rho_min_range_factor",
+    }
+    set_default_prior_hyperparameters(
+        **{names[key]: kwargs[key] for key in names if key in kwargs}
+    )
+    for key in names:
+        kwargs.pop(key, None)
 
 
 def resolve_prior_defaults_for_selection(
-- 
2.43.0


From 6795a7b7bf1020ca729740aed80c9df755a0a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:06 +0000
Subject: [PATCH 19/56] fix: penalise variances above the power-law prior
 cutoff

---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From 191956b2272818f61825b53006b72c3afa972ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:37 +0000
Subject: [PATCH 20/56] fix: let isnan, isinf and isfinite take plain numbers
 on torch

---
 gpmp/num/torch_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 303207b..ebdc682 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -69,9 +69,6 @@ from torch import (
     reshape,
     where,
     any,
-    isnan,
-    isinf,
-    isfinite,
     isclose,
     allclose,
     hstack,
@@ -369,6 +366,9 @@ sin = scalar_safe(torch.sin)
 cos = scalar_safe(torch.cos)
 tan = scalar_safe(torch.tan)
 tanh = scalar_safe(torch.tanh)
+isnan = scalar_safe(torch.isnan)
+isinf = scalar_safe(torch.isinf)
+isfinite = scalar_safe(torch.isfinite)
 
 # ..................................................
 
-- 
2.43.0


From 751d1e708860eac2f8e171c8c75edc9962f3b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:02 +0000
Subject: [PATCH 21/56] fix: refuse inadmissible backend and dtype settings
 without changing anything

---
 gpmp/config.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gpmp/config.py b/gpmp/config.py
index 6561985..3b12331 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -40,6 +40,7 @@ Notes
 """
 
 import os
+import re
 import logging
 import importlib.metadata
 from importlib.util import find_spec
@@ -72,7 +73,8 @@ def _normalize_dtype_spec(dtype) -> str:
     if "float32" in s or s.endswith("f4") or s.endswith("32"):
         raise ValueError("GPmp supports float64 only (float32 is not supported).")
 
-    if "float64" in s or "double" in s or s.endswith("f8") or s.endswith("64"):
+    # Whole words only: "int64", "complex64" or "longdouble" are not float64.
+    if re.search(r"(?<![a-z0-9])(float64|double|f8|64)(?![a-z0-9])", s):
         return "float64"
 
     raise ValueError("dtype must resolve to float64")
@@ -144,11 +146,13 @@ class _GPMPConfig:
         # Validate known sensitive fields to avoid inconsistent state.
         if "backend" in kwargs:
             kwargs["backend"] = _normalize_backend_spec(kwargs["backend"])
-            if kwargs["backend"] is not None:
-                os.environ["GPMP_BACKEND"] = kwargs["backend"]
-
         if "dtype" in kwargs:
             kwargs["dtype"] = _normalize_dtype_spec(kwargs["dtype"])
+
+        # Everything is valid: change the environment and the fields.
+        if kwargs.get("backend") is not None:
+            os.environ["GPMP_BACKEND"] = kwargs["backend"]
+        if "dtype" in kwargs:
             os.environ["GPMP_DTYPE"] = kwargs["dtype"]
             # dtype_resolved must be recomputed by gpmp.num after import.
             kwargs.setdefault("dtype_resolved", None)
@@ -199,6 +203,8 @@ def init_backend():
 def set_backend(backend: str):
     """Force a backend ('numpy'|'torch') before importing gpmp.num."""
     backend = _normalize_backend_spec(backend)
+    if backend is None:
+        raise ValueError("backend must be 'numpy' or 'torch'")
     _config.backend = backend
     os.environ["GPMP_BACKEND"] = backend
 
-- 
2.43.0


From a3c620dfd2db818f59f6a5130ab4671a366c127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:25 +0000
Subject: [PATCH 22/56] fix: scale the torch normal density and keep its
 log-cdf finite in the tail

---
 gpmp/num/torch_backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index ebdc682..f1203d8 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -971,14 +971,13 @@ class normal:
     @staticmethod
     def logcdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return log(d.cdf(x))
+        return torch.special.log_ndtr((x - loc) / scale)
 
     @staticmethod
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / (scale * sqrt(2 * pi)) * exp(-0.5 * t**2)
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From c36f7f895c8501e59e6c4a974ea3768a711d6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:25 +0000
Subject: [PATCH 23/56] fix: solve transposed triangular systems on torch with
 the right triangle

---
 gpmp/num/torch_backend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index f1203d8..bda9f01 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -853,18 +853,20 @@ def solve_triangular(
     overwrite_b=False,
     check_finite=False,
 ):
+    # As in SciPy, lower refers to A: its transpose is upper triangular.
+    upper = not lower
     if trans in (0, "N", "n"):
         Aop = A
     elif trans in (1, "T", "t"):
-        Aop = A.mT
+        Aop, upper = A.mT, lower
     elif trans in (2, "C", "c"):
-        Aop = A.mH
+        Aop, upper = A.mH, lower
     else:
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
         B,
-        upper=not lower,
+        upper=upper,
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From 898305acc9e7df1421fc3caf2ffb04163c8bf20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:51 +0000
Subject: [PATCH 24/56] fix: keep labels attached to their data in DataFrame
 selections

---
 gpmp/misc/dataframe.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..b94ed3f 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -36,25 +36,29 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                j = self.colnames.index(col_key)
+                return DataFrame(self.data[row_key, j:j + 1], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                i = self.rownames.index(row_key)
+                return DataFrame(self.data[i:i + 1, col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                i = self.rownames.index(key)
+                return DataFrame(self.data[i:i + 1, :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                j = self.colnames.index(key)
+                return DataFrame(self.data[:, j:j + 1], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From f85f429652de279f34e867c1ed8a5a04d28dcfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:51 +0000
Subject: [PATCH 25/56] fix: compute the fill distance as the largest distance
 to the sample; allow one-point designs

---
 gpmp/misc/designs.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..8385200 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -28,7 +28,7 @@ def maxdist(sample):
         Maximum distance between any pair of points in the sample.
     """
     D = pdist(sample)
-    maxdist = np.max(D)
+    maxdist = np.max(D, initial=0.0)
     return maxdist
 
 
@@ -47,7 +47,7 @@ def mindist(sample):
         Minimum distance between any pair of points in the sample.
     """
     D = pdist(sample)
-    mindist = np.min(D)
+    mindist = np.min(D, initial=np.inf)
     return mindist
 
 
@@ -94,9 +94,11 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
     else:
         n = x.shape[0]
     filldist = 0
-    for i in range(n):
-        D = cdist(sample, x)
-        d = np.min(D)
+    chunk = 10000
+    for i in range(0, n, chunk):
+        # distance from each point of the discretization to the sample
+        D = cdist(sample, x[i : i + chunk])
+        d = np.max(np.min(D, axis=0))
         if d > filldist:
             filldist = d
     return filldist
-- 
2.43.0


From cc45bab0085cb33a949e674740d83529e946e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:57 +0000
Subject: [PATCH 26/56] fix: replace the removed numpy trapz in the fast
 parameter statistics

---
 gpmp/modeldiagnosis/param_stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index b040a78..0ce5bb2 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -39,7 +39,7 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple
 
 import numpy as np
-from scipy.integrate import cumulative_trapezoid
+from scipy.integrate import cumulative_trapezoid, trapezoid
 from scipy.optimize import minimize_scalar
 
 import gpmp.num as gnp
@@ -94,12 +94,12 @@ def fast_univariate_stats(
     logw -= np.max(logw)  # stabilize exp
     w = np.exp(logw)
 
-    Z = np.trapz(w, xs)
+    Z = trapezoid(w, xs)
     if not np.isfinite(Z) or Z <= 0.0:
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
-    mean_val = float(np.trapz(xs * w, xs) / Z)
-    second = float(np.trapz((xs**2) * w, xs) / Z)
+    mean_val = float(trapezoid(xs * w, xs) / Z)
+    second = float(trapezoid((xs**2) * w, xs) / Z)
     variance = float(second - mean_val**2)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
-- 
2.43.0


From 7d8b3f926cb776f9e690c707b28247b0510c1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:57 +0000
Subject: [PATCH 27/56] fix: make one-dimensional summaries independent of the
 level of the log-density

---
 gpmp/modeldiagnosis/un1ddist.py | 49 ++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/gpmp/modeldiagnosis/un1ddist.py b/gpmp/modeldiagnosis/un1ddist.py
index 315c723..c5148b2 100644
--- a/gpmp/modeldiagnosis/un1ddist.py
+++ b/gpmp/modeldiagnosis/un1ddist.py
@@ -81,11 +81,15 @@ class Unnormalized1DDistribution:
         self.bounds = (float(a), float(b))
         self._quad_opts = {} if quad_opts is None else dict(quad_opts)
 
-        self.Z, _ = quad(
-            self._f_scalar, self.bounds[0], self.bounds[1], **self._quad_opts
+        # Integrate a density of order one: the tolerances of quad are absolute,
+        # and the exponential of the log-pdf itself may overflow or vanish.
+        self._log_scale = self._find_log_scale()
+        self._Z_scaled, _ = quad(
+            self._g_scalar, self.bounds[0], self.bounds[1], **self._quad_opts
         )
-        if not math.isfinite(self.Z) or self.Z <= 0.0:
+        if not math.isfinite(self._Z_scaled) or self._Z_scaled <= 0.0:
             raise ValueError("Normalization failed (Z is not positive and finite).")
+        self.Z = self._Z_scaled * self._safe_exp(self._log_scale)
 
     @staticmethod
     def _safe_exp(u: float) -> float:
@@ -99,6 +103,30 @@ class Unnormalized1DDistribution:
         lp = float(self.log_pdf(float(x)))
         return self._safe_exp(lp)
 
+    def _find_log_scale(self, n: int = 101) -> float:
+        """Largest finite log-pdf over a scan of the bounds."""
+        a, b = self.bounds
+        best = -math.inf
+        for i in range(1, n + 1):
+            t = i / (n + 1)
+            if math.isfinite(a) and math.isfinite(b):
+                x = a + t * (b - a)
+            elif math.isfinite(a):
+                x = a + t / (1.0 - t)
+            elif math.isfinite(b):
+                x = b - t / (1.0 - t)
+            else:
+                x = (2.0 * t - 1.0) / (4.0 * t * (1.0 - t))
+            lp = float(self.log_pdf(x))
+            if math.isfinite(lp):
+                best = max(best, lp)
+        return best if math.isfinite(best) else 0.0
+
+    def _g_scalar(self, x: float) -> float:
+        """Unnormalized density divided by exp(log_scale)."""
+        lp = float(self.log_pdf(float(x)))
+        return self._safe_exp(lp - self._log_scale)
+
     def f(self, x: Sequence[float]) -> gnp.ndarray:
         """
         Evaluate the unnormalized density on a 1D grid.
@@ -129,7 +157,8 @@ class Unnormalized1DDistribution:
         gpmp.num.ndarray
             Density values.
         """
-        return self.f(x) / self.Z
+        g = gnp.asarray([self._g_scalar(float(t)) for t in x])
+        return g / self._Z_scaled
 
     def cdf(self, x: float) -> float:
         """
@@ -151,8 +180,8 @@ class Unnormalized1DDistribution:
             return 0.0
         if x >= b:
             return 1.0
-        integral, _ = quad(self._f_scalar, a, x, **self._quad_opts)
-        return float(integral / self.Z)
+        integral, _ = quad(self._g_scalar, a, x, **self._quad_opts)
+        return float(integral / self._Z_scaled)
 
     def mean(self) -> float:
         """
@@ -164,9 +193,9 @@ class Unnormalized1DDistribution:
             Mean.
         """
         a, b = self.bounds
-        integrand = lambda t: float(t) * self._f_scalar(float(t))
+        integrand = lambda t: float(t) * self._g_scalar(float(t))
         mu, _ = quad(integrand, a, b, **self._quad_opts)
-        return float(mu / self.Z)
+        return float(mu / self._Z_scaled)
 
     def var(self) -> float:
         """
@@ -179,9 +208,9 @@ class Unnormalized1DDistribution:
         """
         a, b = self.bounds
         mu = self.mean()
-        integrand = lambda t: (float(t) ** 2) * self._f_scalar(float(t))
+        integrand = lambda t: (float(t) ** 2) * self._g_scalar(float(t))
         m2, _ = quad(integrand, a, b, **self._quad_opts)
-        return float(m2 / self.Z - mu * mu)
+        return float(m2 / self._Z_scaled - mu * mu)
 
     def quantile(self, p: float, *, xtol: float = 1e-6) -> float:
         """
-- 
2.43.0


From c235ea43083cf7c74bdee83b2c3ea202bf3b58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:36:39 +0000
Subject: [PATCH 28/56] fix: pair observations with their own predictions in
 probability integral transforms

---
 gpmp/modeldiagnosis/performance.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index b69d7c3..b6f0e7f 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -47,6 +47,14 @@ def _as_1d(x: Any) -> Any:
     return gnp.asarray(x).reshape(-1)
 
 
+def _pit(z_vec: Any, zpm: Any, zpv: Any) -> Any:
+    """Probability integral transform of each observation, shaped like zpm."""
+    zpm = gnp.asarray(zpm)
+    scale = gnp.sqrt(gnp.clip(gnp.asarray(zpv), 0.0, gnp.inf))
+    pit = gnp.normal.cdf(z_vec, loc=_as_1d(zpm), scale=_as_1d(scale))
+    return pit.reshape(zpm.shape)
+
+
 def compute_performance(
     model: Any,
     xi: Any,
@@ -129,9 +137,7 @@ def compute_performance(
         out["loo_Q2"] = 1 - press / tss
 
         if compute_pit:
-            zloov_arr = gnp.asarray(zloov)
-            scale = gnp.sqrt(gnp.clip(zloov_arr, 0.0, gnp.inf))
-            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom, scale=scale)
+            out["loo_pit"] = _pit(zi_vec, zloom, zloov)
 
     if xtzt is not None:
         xt, zt = xtzt
@@ -167,8 +173,7 @@ def compute_performance(
         out["test_R2"] = 1 - rss / tss
 
         if compute_pit:
-            scale = gnp.sqrt(gnp.clip(zpv, 0.0, gnp.inf))
-            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm, scale=scale)
+            out["test_pit"] = _pit(zt_vec, zpm, zpv)
 
     return out
 
-- 
2.43.0


From 41a3b4bd66ad4049a00d67c7e4f749cb565fc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:54 +0000
Subject: [PATCH 29/56] fix: record the log-target of the initial states of
 Metropolis-Hastings chains

---
 gpmp/mcmc/mh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..d8fd3b8 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -432,6 +432,7 @@ class MetropolisHastings:
                     c,
                     log_target_x_current=prev_log_target,
                 )
+                self.log_target_values[c, t - 1] = log_target_prev
                 self.log_target_values[c, t] = log_target_next
             self.global_iter += 1
             if show_global_progress:
-- 
2.43.0


From 7375983360e729cf0e80d933f50a83567f6e695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:54 +0000
Subject: [PATCH 30/56] fix: let a single Metropolis-Hastings chain run a long
 burn-in

---
 gpmp/mcmc/mh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index d8fd3b8..af04484 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -575,9 +575,12 @@ class MetropolisHastings:
                 rates = rates[:, i0:i1]
                 min_ar = gnp.min(rates, axis=1)
                 max_ar = gnp.max(rates, axis=1)
-                gr_results = self.check_convergence_gelman_rubin(
-                    last_n_samples=n_diag_samples, verbose=False
-                )
+                # The Gelman-Rubin diagnostic needs several chains.
+                gr_results = {}
+                if self.n_chains >= 2:
+                    gr_results = self.check_convergence_gelman_rubin(
+                        last_n_samples=n_diag_samples, verbose=False
+                    )
                 if (
                     gnp.all(min_ar > self.options.acceptance_min)
                     and gnp.all(max_ar < self.options.acceptance_max)
-- 
2.43.0


From 439468f086b451dc8ff2afda6d48c982515cf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:54 +0000
Subject: [PATCH 31/56] fix: keep the adaptation factor between its initial and
 final values

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index af04484..2477a0b 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -259,7 +259,7 @@ class MetropolisHastings:
         returns base * final_frac.
 
         """
-        cosine_component = math.cos(math.pi * n / n_total)
+        cosine_component = 0.5 * (1.0 + math.cos(math.pi * n / n_total))
         return base * (final_frac + (1 - final_frac) * cosine_component)
 
     def _validate_scheduler_args(self, n_steps_total: int, burnin: int):
-- 
2.43.0


From d38dc062ad47f2a3875d7e09e67ec35f53de6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:54 +0000
Subject: [PATCH 32/56] fix: keep only visited states after an early stop of
 the burn-in

---
 gpmp/mcmc/mh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 2477a0b..923e8e3 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -691,6 +691,10 @@ class MetropolisHastings:
             self.run_adaptive(n_remain)
 
         self.global_total = self.global_iter
+        # After an early stop of the burn-in, drop the steps that were not run.
+        self.x = self.x[:, : 1 + self.global_iter]
+        self.accept = self.accept[:, : 1 + self.global_iter]
+        self.log_target_values = self.log_target_values[:, : 1 + self.global_iter]
         if self.options.show_global_progress:
             self._print_final_time(self.global_total, self.start_time)
 
-- 
2.43.0


From d0bc51efab74458e8e47909ec92de4ddf32bf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:06 +0000
Subject: [PATCH 33/56] fix: do not count blocks as differing from themselves
 in the KS diagnosis; run it on torch

---
 gpmp/mcmc/mh.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 923e8e3..c99b73a 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -942,7 +942,8 @@ class MetropolisHastings:
         # Fill pairwise results dimension-by-dimension
         for d in range(dim):
             for i in range(B):
-                # the diagonal remains zero
+                # a block does not differ from itself
+                pvalue_matrix[d, i, i] = 1.0
                 for j in range(i + 1, B):
                     result = ks_2samp(
                         gnp.to_np(blocks[i][:, d]),
@@ -968,6 +969,13 @@ class MetropolisHastings:
             else:
                 return pvalue_matrix
 
+    @staticmethod
+    def _fraction_of_pairs(significance: gnp.ndarray) -> float:
+        """Fraction of significant comparisons among pairs of distinct blocks."""
+        dim, n_blocks, _ = significance.shape
+        n_pairs = dim * n_blocks * (n_blocks - 1)
+        return float(gnp.to_scalar(gnp.sum(significance))) / max(1, n_pairs)
+
     def check_convergence_ks(
         self,
         multi_block_n_blocks: int = 5,
@@ -1035,7 +1043,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / sigA.size)
+        frac_sig_multi = self._fraction_of_pairs(sigA)
 
         # Single-block check.
         if single_block_size is None:
@@ -1051,7 +1059,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / sigB.size)
+        frac_sig_single = self._fraction_of_pairs(sigB)
 
         # Convergence is declared if the fraction of significant comparisons is low.
         ok = (frac_sig_multi < fraction_threshold) and (
-- 
2.43.0


From c0a81a3e62db451ac37c6850d13ec6af853ba3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:54 +0000
Subject: [PATCH 34/56] fix: temper to the effective sample size asked for, and
 end the search when it jumps

---
 gpmp/mcmc/smc.py | 51 +++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..b6d9375 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -21,7 +21,6 @@ from dataclasses import dataclass, field
 from numpy.random import default_rng
 import scipy.stats as stats
 from scipy.stats import qmc
-from scipy.optimize import brentq
 import gpmp.num as gnp
 try:
     from . import knn_cov
@@ -897,7 +896,6 @@ class SMC:
             Next computed logpdf_param.
 
         """
-        tolerance = 0.05
         eta0 = float(eta0)
         current_logpdf_param = float(current_logpdf_param)
         target_logpdf_param = float(target_logpdf_param)
@@ -947,9 +945,31 @@ class SMC:
                     RuntimeWarning,
                 )
                 return target_logpdf_param
-            next_logpdf_param = brentq(compute_delta_eta, low, high, xtol=tolerance)
+            return self._search_next_param(
+                compute_delta_eta, current_logpdf_param, target_logpdf_param
+            )
 
-            return next_logpdf_param
+    @staticmethod
+    def _search_next_param(delta, current, target, tolerance=0.05):
+        """
+        Dichotomy between the current parameter, where delta is positive, and
+        the target, where it is negative, until delta is within tolerance of zero.
+        """
+        low = current
+        high = target
+        while True:
+            mid = (high + low) / 2
+            if mid == low or mid == high:
+                # delta jumps over the tolerance: stop before the jump if that
+                # is some progress, after it otherwise
+                return low if low != current else high
+            d = delta(mid)
+            if abs(d) < tolerance:
+                return mid
+            if d < 0:
+                high = mid
+            else:
+                low = mid
 
     def compute_p_value(self, logpdf_function, new_logpdf_param, current_logpdf_param):
         """
@@ -1020,10 +1040,6 @@ class SMC:
             Next computed logpdf_param.
 
         """
-        tolerance = 0.05
-        low = current_logpdf_param
-        high = target_logpdf_param
-
         # Check if target_logpdf_param can be reached with p >= p0
         p_target = self.compute_p_value(
             logpdf_parameterized_function, target_logpdf_param, current_logpdf_param
@@ -1033,28 +1049,23 @@ class SMC:
                 print("Target logpdf_param reached.")
             return target_logpdf_param
 
-        while True:
-            mid = (high + low) / 2
+        def compute_delta_p(logpdf_param):
             p = self.compute_p_value(
-                logpdf_parameterized_function, mid, current_logpdf_param
+                logpdf_parameterized_function, logpdf_param, current_logpdf_param
             )
 
             if debug:
                 print(
                     f"Search: p = {p:.2f} / p0 = {p0:.2f}, "
-                    + f"test logpdf_param = {mid}, "
+                    + f"test logpdf_param = {logpdf_param}, "
                     + f"current = {current_logpdf_param}, "
                     + f"target = {target_logpdf_param}"
                 )
+            return p - p0
 
-            if abs(p - p0) < tolerance:
-                break
-            if p < p0:
-                high = mid
-            else:
-                low = mid
-
-        return mid
+        return self._search_next_param(
+            compute_delta_p, current_logpdf_param, target_logpdf_param
+        )
 
     def plot_state(self):
         """Plot the state of the SMC process over different stages.
-- 
2.43.0


From 9d7a96d2e65bad87caf193f8ca01887496246d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:54 +0000
Subject: [PATCH 35/56] fix: give excluded particles zero weight instead of NaN

---
 gpmp/mcmc/smc.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index b6d9375..51c60f3 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -219,7 +219,12 @@ class ParticlesSet:
 
     def reweight(self, update_logpx_and_w=True):
         logpx_new = self.logpdf_function(self.x).reshape(-1)
-        self.w_tmp = self.w * gnp.exp(logpx_new - self.logpx)
+        # A particle of zero weight stays so, whatever its log-densities.
+        self.w_tmp = gnp.where(
+            self.w > 0.0,
+            self.w * gnp.exp(logpx_new - self.logpx),
+            gnp.zeros(self.w.shape),
+        )
         if update_logpx_and_w:
             self.logpx = logpx_new
             self.w = gnp.copy(self.w_tmp)
@@ -996,10 +1001,14 @@ class SMC:
             Computed mean value.
 
         """
+        logpx_new = logpdf_function(self.particles.x, new_logpdf_param)
+        logpx_current = logpdf_function(self.particles.x, current_logpdf_param)
+        # Points excluded by both densities do not count (-inf minus -inf is NaN).
         return gnp.mean(
-            gnp.exp(
-                logpdf_function(self.particles.x, new_logpdf_param)
-                - logpdf_function(self.particles.x, current_logpdf_param)
+            gnp.where(
+                logpx_new == -gnp.inf,
+                gnp.zeros(logpx_new.shape),
+                gnp.exp(logpx_new - logpx_current),
             )
         )
 
-- 
2.43.0


From fb178760fc7992cc44aafe8c45c03aceca1d13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:54 +0000
Subject: [PATCH 36/56] fix: keep whole expected copies in residual resampling
 despite rounding

---
 gpmp/mcmc/smc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 51c60f3..66d9969 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -309,8 +309,9 @@ class ParticlesSet:
         else:
             p = self.w_tmp / gnp.sum(self.w_tmp)
 
-        # Deterministic assignment: floor of expected counts
-        counts_det = gnp.asint(gnp.floor(N * p))
+        # Deterministic assignment: floor of expected counts (N * (1 / N) may
+        # round to slightly less than one)
+        counts_det = gnp.asint(gnp.floor(N * p + 1e-9))
         N_det = int(gnp.sum(counts_det))
 
         # Compute residuals
-- 
2.43.0


From 31634db01325387c55fbcbd5d560f35a0717ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:54 +0000
Subject: [PATCH 37/56] fix: raise an error instead of entering the debugger
 when particles cannot be resampled or perturbed

---
 gpmp/mcmc/smc.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 66d9969..5df84b3 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -249,7 +249,9 @@ class ParticlesSet:
         elif self.config.resample_scheme == "residual":
             self.residual_resample(debug=debug)
         else:
-            raise ValueError("Unknown resample scheme: {}".format(self.resample_scheme))
+            raise ValueError(
+                "Unknown resample scheme: {}".format(self.config.resample_scheme)
+            )
 
     def multinomial_resample(self, debug=False):
         """
@@ -265,12 +267,7 @@ class ParticlesSet:
             p = gnp.full((self.n,), 1 / self.n)
         else:
             p = self.w_tmp / gnp.sum(self.w_tmp)
-        try:
-            counts = ParticlesSet.multinomial_rvs(self.n, p, self.rng)
-        except Exception:
-            extype, value, tb = __import__("sys").exc_info()
-            __import__("traceback").print_exc()
-            __import__("pdb").post_mortem(tb)
+        counts = ParticlesSet.multinomial_rvs(self.n, p, self.rng)
 
         if debug:
             print(
@@ -329,8 +326,7 @@ class ParticlesSet:
 
             # Defensive check before multinomial draw
             if gnp.any(p_vals < 0) or gnp.any(p_vals > 1) or gnp.any(gnp.isnan(p_vals)):
-                print("Residual resampling error: invalid p_vals.")
-                __import__("pdb").set_trace()
+                raise ValueError("Residual resampling error: invalid p_vals.")
 
             counts_res = ParticlesSet.multinomial_rvs(N_residual, p_vals, self.rng)
         else:
@@ -402,7 +398,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(C.shape[0])  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From 4703dd65feb0e7309e2c645c16d78dec7d4ce707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:54 +0000
Subject: [PATCH 38/56] fix: account for the volume of the box in subset
 simulation

---
 gpmp/mcmc/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 5df84b3..ac3cd75 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -16,7 +16,7 @@ Contributions:
     Sébastien Petit, 2024
 """
 
-import time, warnings
+import math, time, warnings
 from dataclasses import dataclass, field
 from numpy.random import default_rng
 import scipy.stats as stats
@@ -1444,6 +1444,9 @@ def run_subset_simulation(
 
     # Initialize particles
     smc.particles.particles_init(init_box, n_particles)
+    # They are drawn from the uniform density on the box.
+    volume = math.prod(float(u) - float(l) for l, u in zip(init_box[0], init_box[1]))
+    smc.particles.logpx = gnp.full((n_particles,), -math.log(volume))
     smc.log_data["target_logpdf_param"] = thresholds[1]
 
     stage_probs = gnp.empty(len(thresholds) - 1)
-- 
2.43.0


From 2558450f82faa9720d0db88dead6ae99cb592362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:18 +0000
Subject: [PATCH 39/56] fix: take one-sided gradients next to the edge of the
 domain with NumPy

Finite differences that step out of the support of a density are not
finite, so particles on a face of the sampling box lost their gradient.
---
 gpmp/num/numpy_backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 44a90ce..f6e016a 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -323,6 +323,13 @@ def value_and_grad(
             return _coerce_scalar_like(f(x_tmp))
 
         grad[idx] = derivative_finite_diff(f_i, xi, h)
+        if isfinite(y) and not isfinite(grad[idx]):
+            # x is next to the edge of the domain of f: one-sided difference
+            for s in (h, -h):
+                one_sided = (-3.0 * y + 4.0 * f_i(xi + s) - f_i(xi + 2 * s)) / (2.0 * s)
+                if isfinite(one_sided):
+                    grad[idx] = one_sided
+                    break
         x_tmp[idx] = x[idx]  # restore
     return y, grad
 
-- 
2.43.0


From a2dde4abe10dd72b38291815f5b430fa5926d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:18 +0000
Subject: [PATCH 40/56] fix: accept initial states of shape (dim, n_chains)

The dimension was taken from the number of columns before the documented
transposed shape could be recognised.
---
 gpmp/mcmc/param_posterior.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..4f7bccb 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -101,6 +101,7 @@ def _infer_dim(
     info: object,
     param_initial_states,
     box,
+    n_chains: Optional[int] = None,
 ) -> int:
     if param_initial_states is not None:
         theta = gnp.asarray(param_initial_states)
@@ -109,7 +110,10 @@ def _infer_dim(
         if theta.ndim == 1:
             return int(theta.shape[0])
         if theta.ndim == 2:
-            return int(theta.shape[1])
+            r, c = int(theta.shape[0]), int(theta.shape[1])
+            if n_chains is not None and r not in (1, n_chains) and c == n_chains:
+                return r  # (dim, n_chains)
+            return c
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
     if info is not None:
@@ -416,7 +420,7 @@ def sample_from_selection_criterion_mh(
         require_differentiable=False,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
@@ -595,7 +599,7 @@ def sample_from_selection_criterion_nuts(
         require_differentiable=True,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
-- 
2.43.0


From 89b3908e61b7507c07bb59cdf1a0c10d1e6b88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:18 +0000
Subject: [PATCH 41/56] fix: let SMC start from a box with scalar bounds

The bounds were normalised but the box as given was used.
---
 gpmp/mcmc/param_posterior.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 4f7bccb..a93dfdd 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -732,7 +732,10 @@ def sample_from_selection_criterion_smc(
         raise ValueError("init_box must be provided for SMC.")
 
     dim = _infer_dim(info, None, init_box)
-    _, _, _, _ = _normalize_bounds(init_box, dim, box_name="init_box")
+    _, _, lower_init_np, upper_init_np = _normalize_bounds(
+        init_box, dim, box_name="init_box"
+    )
+    init_box = [lower_init_np, upper_init_np]
 
     lower_b = upper_b = None
     if sampling_box is not None:
-- 
2.43.0


From 32af6db3cba6d6be94a9eb3ea0a2aa3e00d857a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:18 +0000
Subject: [PATCH 42/56] fix: exclude points where the criterion fails or is
 undefined in SMC

The other samplers give such points zero density; SMC stopped with the
criterion's exception or carried NaN weights.
---
 gpmp/mcmc/param_posterior.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index a93dfdd..39976a2 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -41,6 +41,7 @@ Input conventions
 
 from __future__ import annotations
 
+import math
 from typing import Callable, Optional, Tuple
 
 import gpmp.config as config
@@ -744,7 +745,11 @@ def sample_from_selection_criterion_smc(
         )
 
     def _criterion_scalar(theta):
-        return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        try:
+            v = gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        except Exception:
+            return gnp.inf
+        return gnp.inf if math.isnan(v) else v
 
     def logpdf_temp(x, temperature):
         x = gnp.asarray(x)
-- 
2.43.0


From 821d0f803ac9fa0b5bbf1d18e86f3e053d8eb381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:18 +0000
Subject: [PATCH 43/56] fix: project SVGD particles into the sampling box when
 options are given

The box was only passed on when the options were built from arguments,
so particles left the box and died there.
---
 gpmp/mcmc/param_posterior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 39976a2..54563fb 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -42,6 +42,7 @@ Input conventions
 from __future__ import annotations
 
 import math
+from dataclasses import replace
 from typing import Callable, Optional, Tuple
 
 import gpmp.config as config
@@ -991,6 +992,8 @@ def sample_from_selection_criterion_svgd(
             log_every=log_every,
             jitter=jitter,
         )
+    elif options.sampling_box is None and sampling_box is not None:
+        options = replace(options, sampling_box=sampling_box)
 
     particles, info_svgd = svgd_sample(
         log_prob=log_prob,
-- 
2.43.0


From 50aa72d3eed86f7d21bec5bedcb332bccd7410b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:29 +0000
Subject: [PATCH 44/56] fix: keep SMC weights finite when log-densities have a
 large common offset

---
 gpmp/mcmc/smc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index ac3cd75..5e91798 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -220,11 +220,17 @@ class ParticlesSet:
     def reweight(self, update_logpx_and_w=True):
         logpx_new = self.logpdf_function(self.x).reshape(-1)
         # A particle of zero weight stays so, whatever its log-densities.
-        self.w_tmp = gnp.where(
+        log_ratio = gnp.where(
             self.w > 0.0,
-            self.w * gnp.exp(logpx_new - self.logpx),
-            gnp.zeros(self.w.shape),
+            logpx_new - self.logpx,
+            gnp.full(self.w.shape, -gnp.inf),
         )
+        # Weights matter up to a factor: take the largest ratio as unit when it
+        # would overflow or underflow (-1e100 stands for an excluded point).
+        log_unit = gnp.to_scalar(gnp.max(log_ratio))
+        if 300.0 < abs(log_unit) < 1e50:
+            log_ratio = log_ratio - log_unit
+        self.w_tmp = self.w * gnp.exp(log_ratio)
         if update_logpx_and_w:
             self.logpx = logpx_new
             self.w = gnp.copy(self.w_tmp)
-- 
2.43.0


From 6761f6bbd0ea3af87a91479ff21c02b8058c0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:31 +0000
Subject: [PATCH 45/56] fix: report the range of the observations relative to
 their standard deviation

---
 gpmp/modeldiagnosis/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index 6f8bce3..cba0abc 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -212,7 +212,8 @@ def model_diagnosis_disp(
         rownames_zi = ["zi"]
     else:
         rownames_zi = [f"zi_{j}" for j in range(int(zi.shape[1]))]
-    df_zi = describe_array(zi, rownames_zi, 1.0 / param_values[0])
+    # the first parameter is a variance
+    df_zi = describe_array(zi, rownames_zi, 1.0 / np.sqrt(param_values[0]))
 
     n, d = int(xi.shape[0]), int(xi.shape[1])
     rownames_xi = [f"xi_{j}" for j in range(d)]
-- 
2.43.0


From c67f17956328168aaadcf00787694ec4e1cfb6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:31 +0000
Subject: [PATCH 46/56] fix: sum all logarithmic terms of the Dette-Pepelyshev
 function

---
 gpmp/misc/testfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 709e27a..707dd55 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -361,8 +361,8 @@ def detpep8d(x):
             xj = x[:, jj - 1]
             inner = inner + xj
 
-    new = ii * np.log(1 + inner)
-    outer = outer + new
+        new = ii * np.log(1 + inner)
+        outer = outer + new
 
     z = term1 + term2 + term3 + outer
 
-- 
2.43.0


From 4cf077eca3aad910e76461ab4e86fd4b07e5bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:10 +0000
Subject: [PATCH 47/56] fix: take the bounds of the plotted parameter in
 criterion cross sections

---
 gpmp/modeldiagnosis/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 5343a00..4c258a9 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -184,7 +184,7 @@ def plot_selection_criterion_crosssections(
 
         for ax_i, param_idx in enumerate(ind):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(ax_i, opt_value, param_box)
+            p_values = _grid_for_param(param_idx, opt_value, param_box)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
@@ -216,7 +216,7 @@ def plot_selection_criterion_crosssections(
         fig, ax = plt.subplots(figsize=(8, 6))
         for i, param_idx in enumerate(ind_pooled):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(i, opt_value, param_box_pooled)
+            p_values = _grid_for_param(param_idx, opt_value, param_box_pooled)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
-- 
2.43.0


From 158e1fff283b7a362883412170527a6e4dcd0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:34:40 +0000
Subject: [PATCH 48/56] fix: draw the empirical distribution function of PIT
 values with steps of 1/n

---
 gpmp/modeldiagnosis/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 4c258a9..ce68048 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -56,8 +56,9 @@ def plot_pit_ecdf(pit: Any, fig: Optional[Any] = None) -> None:
     pit = gnp.asarray(pit).reshape(-1)
     n = int(pit.shape[0])
 
-    p = gnp.concatenate((gnp.array([0.0]), gnp.linspace(0.0, 1.0, n)))
-    pit_sorted = gnp.concatenate((gnp.array([0.0]), gnp.sort(pit)))
+    # k/n between the k-th and the next of the sorted values
+    p = gnp.concatenate((gnp.array([0.0]), gnp.linspace(0.0, 1.0, n + 1)))
+    pit_sorted = gnp.concatenate((gnp.array([0.0]), gnp.sort(pit), gnp.array([1.0])))
 
     if fig is None:
         plt.figure()
-- 
2.43.0


From f9636cd129f43086ce1f6fbe7d6ae8ad98b151a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:46:59 +0000
Subject: [PATCH 49/56] fix: adapt NUTS masses to the inverse of the estimated
 variances

---
 gpmp/mcmc/nuts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index e56f23b..f9f59bb 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -992,7 +992,8 @@ def nuts_sample(
         # window end: update mass, restart dual averaging
         if (t + 1) in window_end_set:
             old_mass_mean = float(gnp.mean(mass_diag))
-            mass_diag = gnp.clip(rv.var(), min=jitter)
+            # M^{-1} estimates the variances: the target then has unit scales
+            mass_diag = gnp.clip(1.0 / gnp.clip(rv.var(), min=jitter), min=jitter)
             inv_mass_diag = 1.0 / mass_diag
             new_mass_mean = float(gnp.mean(mass_diag))
 
-- 
2.43.0


From eed25150f163c8a13fecd975bda2c2ed69816d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:11:21 +0000
Subject: [PATCH 50/56] fix: print undefined values of labelled tables

---
 gpmp/misc/dataframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index b94ed3f..7f48726 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -20,6 +20,8 @@ def ftos(x, fp=3):
         return "+Inf"
     elif x == float('-inf'):
         return "-Inf"
+    elif x != x:
+        return "NaN"
     abs_x = abs(x)
     if x == 0:
         return "0.0"
-- 
2.43.0


From ef5f13fded845a8a00bf3572a847a084b1358ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:21:25 +0000
Subject: [PATCH 51/56] fix: let gradient-based selection survive failed
 evaluations in the torch backend

A criterion value that failed numerically has no gradient there. The
criterion objects raised instead, which ended the whole selection.
---
 gpmp/num/torch_backend.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index bda9f01..4e0a7ec 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -544,6 +544,11 @@ def value_and_grad(f, x):
 #     return y.detach(), g.detach()
 
 
+def _same_point(p: torch.Tensor, q: torch.Tensor) -> bool:
+    """Equality of parameter vectors, undefined entries included."""
+    return p.shape == q.shape and torch.allclose(p, q, rtol=0.0, atol=0.0, equal_nan=True)
+
+
 class DifferentiableSelectionCriterion:
     """Wraps a selection criterion f(p, x, z) -> scalar, allowing gradient computation."""
 
@@ -588,7 +593,7 @@ class DifferentiableSelectionCriterion:
         if self._f_value is None:
             raise ValueError("Call 'evaluate_pre_grad(p)' before 'gradient(p)'")
 
-        if not torch.equal(asarray(p), self._p_value):
+        if not _same_point(asarray(p), self._p_value):
             raise ValueError(
                 "The input 'p' in 'gradient' must be the same as in 'evaluate'"
             )
@@ -600,6 +605,9 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value).all():
+                # the criterion failed here: its value is known, its slope is not
+                return torch.full_like(self._p_value, float("nan")).detach()
             raise RuntimeError("Gradient is None.")
         return gradients
 
@@ -684,7 +692,12 @@ class BatchDifferentiableSelectionCriterion:
             p = self._prepare_param(param, req_grad=False)
             for xb, zb in self._batches():
                 bs = xb.shape[0]
-                total += self.crit(p, xb, zb).item() * bs
+                try:
+                    total += self.crit(p, xb, zb).item() * bs
+                except Exception as exc:
+                    if not _is_linalg_exception(exc):
+                        raise
+                    total = float("inf")
                 n += bs
         if n == 0:
             raise ValueError("Loader is empty.")
@@ -696,8 +709,16 @@ class BatchDifferentiableSelectionCriterion:
         total, n = 0.0, 0
         for xb, zb in self._batches():
             bs = xb.shape[0]
-            loss = self.crit(p, xb, zb) * bs
-            g = torch.autograd.grad(loss, p, retain_graph=False)[0]
+            try:
+                loss = self.crit(p, xb, zb) * bs
+            except Exception as exc:
+                if not _is_linalg_exception(exc):
+                    raise
+                loss = torch.tensor(float("inf"), requires_grad=True)
+            failed = not torch.isfinite(loss).all()
+            g = torch.autograd.grad(loss, p, retain_graph=False, allow_unused=failed)[0]
+            if g is None:  # failed batch: its value is known, its slope is not
+                g = torch.full_like(p, float("nan"))
             if grad is None:
                 grad = g
             else:
@@ -717,7 +738,7 @@ class BatchDifferentiableSelectionCriterion:
     def gradient(self, _param: TensorLike) -> torch.Tensor:
         if self._gradient is None:
             raise RuntimeError("Call `evaluate_pre_grad` first.")
-        if not torch.equal(asarray(_param), self._param):
+        if not _same_point(asarray(_param), self._param):
             raise ValueError(
                 "The input in 'gradient' must be the same as in 'evaluate_pre_grad'"
             )
-- 
2.43.0


From 58c57c6d7f879e3692a5784a405027cd26e32d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:21:25 +0000
Subject: [PATCH 52/56] fix: accumulate batch gradients without writing into
 shared memory

Gradients of sums are expanded views, which cannot be updated in place.
---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 4e0a7ec..b086927 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -722,14 +722,14 @@ class BatchDifferentiableSelectionCriterion:
             if grad is None:
                 grad = g
             else:
-                grad += g
+                grad = grad + g
             total += loss.item()
             n += bs
         if n == 0:
             raise ValueError("Loader is empty.")
         if self.reduction == "mean":
             total /= n
-            grad /= n
+            grad = grad / n
         self._gradient = grad.detach()
         self._param = p.detach().clone()
         return total
-- 
2.43.0


From 6ee359a046537c2bc805b8d6a9a65efdb472b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:56 +0000
Subject: [PATCH 53/56] fix: do not compare chains when a single one was
 sampled

---
 gpmp/mcmc/param_posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 54563fb..a69cc39 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -480,7 +480,8 @@ def sample_from_selection_criterion_mh(
     if not silent:
         print("\n")
         mh.check_acceptance_rates(burnin_period=mh.burnin_period)
-        mh.check_convergence_gelman_rubin(burnin_period=mh.burnin_period)
+        if n_chains > 1:  # the diagnostic compares chains
+            mh.check_convergence_gelman_rubin(burnin_period=mh.burnin_period)
 
     if plot_chains:
         mh.plot_chains()
-- 
2.43.0


From bef4e6b55662605cac0d00d4917108a4557a94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:42 +0000
Subject: [PATCH 54/56] fix: compute moving averages of NUTS diagnostics
 without a missing function

---
 gpmp/mcmc/nuts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index f9f59bb..79c4ab3 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -1141,8 +1141,9 @@ def moving_average(y, window: int):
     if window <= 1:
         return y
 
-    w = gnp.ones(window, dtype=gnp_dtype) / window
-    return gnp.convolve(y, w, mode="valid")
+    y = gnp.asarray(y, dtype=gnp_dtype)
+    n = int(y.shape[0]) - window + 1
+    return gnp.stack([gnp.mean(y[i : i + window]) for i in range(n)])
 
 
 def plot_nuts_diagnostics(
-- 
2.43.0


From 66b78fb3198a32666605425e27f88a7e49900f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:24:42 +0000
Subject: [PATCH 55/56] fix: plot marginals of particles that share a
 coordinate

---
 gpmp/mcmc/svgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 6c0ad93..d71b529 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -620,7 +620,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
             ax.set_xlabel(rf"$\theta_{{{int(param)+1}}}$")
@@ -655,7 +655,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
         ax.set_xlabel(r"$\theta_i$")
-- 
2.43.0


From 9ef72e1d1211626227f64ddfdacd6c70ccc99ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:22 +0000
Subject: [PATCH 56/56] fix: draw multivariate normal variates from the seeded
 generator

---
 gpmp/num/numpy_backend.py |  9 +++++----
 gpmp/num/torch_backend.py | 10 ++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index f6e016a..e6ef685 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -520,9 +520,9 @@ class multivariate_normal:
     def rvs(mean=0.0, cov=1.0, n=1):
         # Check if cov is a scalar or 1x1 array, and use norm if so
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.rvs(mean, numpy.sqrt(cov), size=n).astype(
-                _np_dtype, copy=False
-            )
+            return normal.rvs(
+                mean, numpy.sqrt(cov), size=n, random_state=_np_rng
+            ).astype(_np_dtype, copy=False)
 
         # For dxd covariance matrix, use multivariate_normal
         cov = numpy.asarray(cov)
@@ -531,7 +531,8 @@ class multivariate_normal:
         d = cov.shape[0]
         mean_array = multivariate_normal._mean_array(mean, d)
         return numpy.asarray(
-            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n), dtype=_np_dtype
+            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n, random_state=_np_rng),
+            dtype=_np_dtype,
         )
 
     @staticmethod
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index b086927..c621ec3 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1042,7 +1042,10 @@ class multivariate_normal:
                 mean, device=var.device
             ).reshape(())
             dist = Normal(mean_s, var.sqrt())
-            return dist.sample((n,))
+            eps = torch.randn(n, generator=_torch_gen, dtype=_torch_dtype).to(
+                var.device
+            )
+            return (dist.loc + dist.scale * eps).detach()
 
         # matrix covariance
         if cov_t.ndim != 2 or cov_t.shape[0] != cov_t.shape[1]:
@@ -1050,7 +1053,10 @@ class multivariate_normal:
         d = cov_t.shape[0]
         mean_vec = multivariate_normal._mean_vector(mean, d, cov_t.device)
         dist = MultivariateNormal(mean_vec, covariance_matrix=cov_t)
-        return dist.sample((n,))
+        eps = torch.randn(n, d, generator=_torch_gen, dtype=_torch_dtype).to(
+            cov_t.device
+        )
+        return (dist.loc + eps @ dist.scale_tril.T).detach()
 
     @staticmethod
     def logpdf(x, mean=0.0, cov=1.0):
-- 
2.43.0

