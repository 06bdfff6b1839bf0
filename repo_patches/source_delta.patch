From 6a8ad2a2175c4bbe50330663b02e265b66449cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 01/24] fix: iterate with chunk offsets over a lead time
 interval

---
 weatherbenchX/time_chunks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/time_chunks.py b/weatherbenchX/time_chunks.py
index 871cdc5..faff2c9 100644
--- a/weatherbenchX/time_chunks.py
+++ b/weatherbenchX/time_chunks.py
@@ -197,6 +197,9 @@ class TimeChunks(Iterable[TimeChunk]):
     """
     for index, (init_chunk, lead_chunk) in enumerate(self):
       init_index = self._init_time_chunk_size * (index // self._num_lead_chunks)
-      lead_index = self._lead_time_chunk_size * (index % self._num_lead_chunks)
+      # There is no lead_time_chunk_size for a lead_time slice (a single chunk).
+      lead_index = (self._lead_time_chunk_size or 0) * (
+          index % self._num_lead_chunks
+      )
       offsets = TimeChunkOffsets(init_time=init_index, lead_time=lead_index)
       yield offsets, (init_chunk, lead_chunk)
-- 
2.43.0


From 881d4b034b55c59635a159c2918bf8b8b26100f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 02/24] fix: pass skipna_ensemble to every statistic of
 CRPSEnsembleDistance

---
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index d682f55..08e6f78 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -632,7 +632,10 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
   @property
   def statistics(self) -> Mapping[str, base.Statistic]:
     return {
-        'CRPSSkill': CRPSSkill(ensemble_dim=self._ensemble_dim),
+        'CRPSSkill': CRPSSkill(
+            ensemble_dim=self._ensemble_dim,
+            skipna_ensemble=self._skipna_ensemble,
+        ),
         'CRPSSpread': CRPSSpread(
             ensemble_dim=self._ensemble_dim,
             use_sort=self._use_sort,
@@ -644,6 +647,7 @@ class CRPSEnsembleDistance(base.PerVariableMetric):
             use_sort=self._use_sort,
             fair=self._fair,
             which='targets',
+            skipna_ensemble=self._skipna_ensemble,
         ),
     }
 
-- 
2.43.0


From 9f0af9a81ef7278ac941789fae96e4104deefa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 03/24] fix: keep ranked probability scores missing where the
 inputs are missing

---
 weatherbenchX/metrics/categorical.py   | 4 +++-
 weatherbenchX/metrics/probabilistic.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 564a818..f2a338d 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -337,7 +337,9 @@ class RankedProbabilityScore(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return ((predictions - targets) ** 2).sum(self._bin_dim)
+    # min_count=1 keeps the score missing where an input is missing, instead of
+    # returning the sum of no terms (0, a perfect score).
+    return ((predictions - targets) ** 2).sum(self._bin_dim, min_count=1)
 
 
 # Metrics
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 08e6f78..4c4ecd8 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -474,7 +474,11 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     ]
 
     # RPS is the sum of squared errors over the bin dimension.
-    return cdf_mse.sum(self._bin_dim, skipna=self._skipna_ensemble)
+    # min_count=1 keeps the score missing where no bin is available (e.g. when
+    # the target is missing), instead of returning 0, a perfect score.
+    return cdf_mse.sum(
+        self._bin_dim, skipna=self._skipna_ensemble, min_count=1
+    )
 
 
 ### Metrics
-- 
2.43.0


From c7ec5615f14578bdcea6dcccd2e316f2e9fbbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:18 +0000
Subject: [PATCH 04/24] fix: accept tuples of thresholds and shifts as
 documented

---
 weatherbenchX/metrics/wrappers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index e0b0522..8777d3d 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -80,6 +80,9 @@ def binarize_thresholds(
     )
     threshold = thresholds
   else:
+    # Need to convert to array because xarray does not interpret tuples
+    # correctly.
+    thresholds = np.array(thresholds)
     threshold = xr.DataArray(
         thresholds, dims=[threshold_dim], coords={threshold_dim: thresholds}
     )
@@ -651,10 +654,13 @@ class ShiftAlongNewDim(InputTransform):
         )
       shifts = self._shift_value[da.name]
     else:
+      # Need to convert to array because xarray does not interpret tuples
+      # correctly.
+      shift_values = np.array(self._shift_value)
       shifts = xr.DataArray(
-          self._shift_value,
+          shift_values,
           dims=[self._shift_dim],
-          coords={self._shift_dim: self._shift_value},
+          coords={self._shift_dim: shift_values},
       )
 
     return da + shifts
-- 
2.43.0


From 23bd35107a320d42d8e50b1f1a45a42f8014b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 05/24] fix: name every statistic after the parameters that
 affect its result

---
 weatherbenchX/metrics/categorical.py   |  8 ++++----
 weatherbenchX/metrics/deterministic.py | 24 +++++++++++++++++++++++-
 weatherbenchX/metrics/probabilistic.py | 18 ++++++++++++++----
 weatherbenchX/metrics/wrappers.py      |  6 +++---
 4 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index f2a338d..4c30627 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -330,7 +330,7 @@ class RankedProbabilityScore(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return 'RankedProbabilityScore'
+    return f'RankedProbabilityScore_{self._bin_dim}'
 
   def _compute_per_variable(
       self,
@@ -720,7 +720,7 @@ class Confident(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'Confident'
+        f'Confident_{self._ensemble_dim}'
         + f'_conf_thres={self._confidence_threshold}'
         + f'_spread_low={self._spread_low}'
         + f'_spread_high={self._spread_high}'
@@ -766,7 +766,7 @@ class Covered(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     return (
-        'Covered'
+        f'Covered_{self._ensemble_dim}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
     )
@@ -812,7 +812,7 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
   @property
   def unique_name(self) -> str:
     return (
-        'JaccardDistant'
+        f'JaccardDistant_{self._ensemble_dim}'
         + f'_threshold={self._threshold}'
         + f'_interval_low={self._interval_low}'
         + f'_interval_high={self._interval_high}'
diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index b9f84f4..a8dd33a 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -48,6 +48,10 @@ class RelativeIntensity(base.PerVariableStatistic):
     """
     self._spatial_dims = spatial_dims
 
+  @property
+  def unique_name(self) -> str:
+    return f'RelativeIntensity_{self._spatial_dims}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -135,6 +139,10 @@ class PredictionPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_targets = copy_nans_from_targets
 
+  @property
+  def unique_name(self) -> str:
+    return f'PredictionPassthrough_copy_nans_{self._copy_nans_from_targets}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -159,6 +167,10 @@ class TargetPassthrough(base.PerVariableStatistic):
     """
     self._copy_nans_from_predictions = copy_nans_from_predictions
 
+  @property
+  def unique_name(self) -> str:
+    return f'TargetPassthrough_copy_nans_{self._copy_nans_from_predictions}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -200,7 +212,10 @@ class WindVectorSquaredError(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    suffix = '_'.join(self._vector_name)
+    suffix = '_'.join(
+        f'{vector}({u},{v})'
+        for u, v, vector in zip(self._u_name, self._v_name, self._vector_name)
+    )
     return 'WindVectorSquaredError_' + suffix
 
   def compute(
@@ -271,13 +286,20 @@ class ErrorExceedance(base.PerVariableStatistic):
         `error_exceedance_thresholds`.
     """
     if isinstance(thresholds, Sequence):
+      self._unique_name_suffix = ','.join([str(t) for t in thresholds])
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
           coords={'error_exceedance_thresholds': thresholds},
       )
+    else:
+      self._unique_name_suffix = str(thresholds.to_dict())
     self._thresholds = thresholds
 
+  @property
+  def unique_name(self) -> str:
+    return f'{type(self).__name__}_{self._unique_name_suffix}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 4c4ecd8..9ae6a44 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -48,7 +48,10 @@ class EnsembleAveragedStatistic(base.Statistic):
 
   @property
   def unique_name(self) -> str:
-    return self._wrapped_statistic.unique_name + '_each_' + self._ensemble_dim
+    return (
+        f'{self._wrapped_statistic.unique_name}_each_{self._ensemble_dim}_'
+        f'skipna_ensemble_{self._skipna_ensemble}'
+    )
 
   def compute(
       self,
@@ -124,7 +127,7 @@ class CRPSSkill(base.PerVariableStatistic):
 
   @property
   def unique_name(self) -> str:
-    return f'CRPSSkill_{self._ensemble_dim}'
+    return f'CRPSSkill_{self._ensemble_dim}_skipna_ensemble_{self._skipna_ensemble}'
 
   def _compute_per_variable(
       self,
@@ -189,7 +192,7 @@ class CRPSSpread(base.PerVariableStatistic):
   @property
   def unique_name(self) -> str:
     fair_str = 'fair' if self._fair else 'unfair'
-    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}'
+    return f'CRPSSpread_{self._ensemble_dim}_{fair_str}_{self._which}_skipna_ensemble_{self._skipna_ensemble}'
 
   def _compute_per_variable(
       self,
@@ -406,6 +409,7 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
     self._skipna_ensemble = skipna_ensemble
     self._fair = fair
     self._bin_dim = bin_dim
+    self._right_inclusive = right_inclusive
     self._unique_name_suffix = unique_name_suffix
 
     binned_prediction_wrapper = wrappers.ContinuousToCDF(
@@ -458,6 +462,8 @@ class EnsembleRankedProbabilityScore(base.PerVariableStatistic):
         f'RankedProbabilityScore_{self._ensemble_dim}_'
         f'skipna_ensemble_{self._skipna_ensemble}_'
         f'fair_{self._fair}_'
+        f'{self._bin_dim}_'
+        f'right_inclusive_{self._right_inclusive}_'
         f'{self._unique_name_suffix}'
     )
 
@@ -737,6 +743,10 @@ class EnsembleErrorExceedance(deterministic.ErrorExceedance):
     super().__init__(thresholds=thresholds)
     self._ensemble_dim = ensemble_dim
 
+  @property
+  def unique_name(self) -> str:
+    return f'{super().unique_name}_{self._ensemble_dim}'
+
   def _compute_per_variable(
       self,
       predictions: xr.DataArray,
@@ -1043,7 +1053,7 @@ class RelativeEconomicValue(base.Metric):
     if self._thresholds is None:
       self._thresholds = (np.arange(ensemble_size) + 0.5) / ensemble_size
       if statistic_suffix is None:
-        statistic_suffix = 'all_thresholds_for_ensemble_size'
+        statistic_suffix = f'all_thresholds_for_ensemble_size_{ensemble_size}'
     if not np.all(self._thresholds >= 0.0) or not np.all(
         self._thresholds <= 1.0
     ):
diff --git a/weatherbenchX/metrics/wrappers.py b/weatherbenchX/metrics/wrappers.py
index 8777d3d..286bacb 100644
--- a/weatherbenchX/metrics/wrappers.py
+++ b/weatherbenchX/metrics/wrappers.py
@@ -141,7 +141,7 @@ class EnsembleMean(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return f'ensemble_mean_{self._ensemble_dim=}_{self._skipna=}'
+    return f'ensemble_mean_{self._ensemble_dim=}_{self._skipna=}_{self._skip_if_ensemble_dim_missing=}'
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     if self._ensemble_dim not in da.dims and self._skip_if_ensemble_dim_missing:
@@ -496,7 +496,7 @@ class WeibullEnsembleToProbabilistic(InputTransform):
 
   @property
   def unique_name_suffix(self) -> str:
-    return 'ensemble_to_probabilistic_by_weibull_plotting_position'
+    return f'ensemble_to_probabilistic_by_weibull_plotting_position_{self._ensemble_dim=}_{self._skipna=}'
 
   def transform_fn(self, da: xr.DataArray) -> xr.DataArray:
     ensemble_members = da.sizes[self._ensemble_dim]
@@ -894,7 +894,7 @@ class SubselectVariablesForStatistic(base.Statistic):
   def unique_name(self) -> str:
     # Make sure to change unique name in case there is another, non-subsetted
     # statistic with the same name.
-    variables_str = '_'.join(self.variables)
+    variables_str = ','.join(self.variables)
     return f'{self.statistic.unique_name}_{variables_str}'
 
   def compute(
-- 
2.43.0


From f211f24ee701ecab0c334e36c83875f7628c24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 06/24] fix: accept a tuple of thresholds in ErrorExceedance as
 documented

---
 weatherbenchX/metrics/deterministic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index a8dd33a..c7caf9b 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -287,6 +287,9 @@ class ErrorExceedance(base.PerVariableStatistic):
     """
     if isinstance(thresholds, Sequence):
       self._unique_name_suffix = ','.join([str(t) for t in thresholds])
+      # Need to convert to array because xarray does not interpret tuples
+      # correctly.
+      thresholds = np.array(thresholds)
       thresholds = xr.DataArray(
           thresholds,
           dims='error_exceedance_thresholds',
-- 
2.43.0


From 9351ccb5790374983fc6476776ea145bedaec34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 07/24] fix: keep the dimensions of the mask in neighborhood
 averaging

---
 weatherbenchX/metrics/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 4a9c595..5ad9146 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -74,8 +74,10 @@ def neighborhood_averaging_for_single_size(
     )
     # This should be new_mask == 1 but there are some rounding errors in
     # convolve2d, so that this fails. Therefore, we use isclose.
-    new_mask = np.isclose(new_mask, True)
-    out.coords['mask'][:] = new_mask.astype(bool)
+    # The averaging moves latitude and longitude to the end, so the dimensions
+    # may be ordered differently from those of the original mask.
+    mask_values = np.isclose(new_mask, True).astype(da.mask.dtype)
+    out = out.assign_coords(mask=(new_mask.dims, mask_values))
   return out
 
 
-- 
2.43.0


From 2cdcb895ac662ecb3260cdabfe9c3123ab009631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 08/24] fix: accept a tuple of neighborhood sizes

---
 weatherbenchX/metrics/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/metrics/spatial.py b/weatherbenchX/metrics/spatial.py
index 5ad9146..996ad1c 100644
--- a/weatherbenchX/metrics/spatial.py
+++ b/weatherbenchX/metrics/spatial.py
@@ -93,7 +93,7 @@ def neighborhood_averaging(
             neighborhood_averaging_for_single_size(da, n, wrap_longitude)
             for n in neighborhood_size
         ],
-        dim=xr.DataArray(neighborhood_size, dims=['neighborhood_size']),
+        dim=xr.DataArray(list(neighborhood_size), dims=['neighborhood_size']),
     )
   else:
     return neighborhood_averaging_for_single_size(
-- 
2.43.0


From 2211fed2b4aa8a6f51807eef26718d112e082530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 09/24] fix: do not add the mask to the arrays passed to
 add_nan_mask_to_data

---
 weatherbenchX/data_loaders/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/data_loaders/base.py b/weatherbenchX/data_loaders/base.py
index 16370d4..ade2d33 100644
--- a/weatherbenchX/data_loaders/base.py
+++ b/weatherbenchX/data_loaders/base.py
@@ -52,7 +52,7 @@ def add_nan_mask_to_data(
   data = dict(data)
   for var in data:
     if variable_subset is None or var in variable_subset:
-      data[var].coords['mask'] = ~np.isnan(data[var])
+      data[var] = data[var].assign_coords(mask=~np.isnan(data[var]))
   return data
 
 
-- 
2.43.0


From cdc97a5e8ff893331c387decdc03e86958a85c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 10/24] fix: keep variables apart whose coordinates differ only
 where missing

---
 weatherbenchX/xarray_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/xarray_tree.py b/weatherbenchX/xarray_tree.py
index 2619958..f219763 100644
--- a/weatherbenchX/xarray_tree.py
+++ b/weatherbenchX/xarray_tree.py
@@ -54,8 +54,10 @@ def map_structure(func: Callable[..., Any], *structures: Any) -> Any:
     ):
       data_arrays = [v.rename(k) for k, v in data.items() if v is not None]
       try:
-        return xarray.merge(data_arrays, join='exact')
-      except ValueError:  # Exact join not possible.
+        return xarray.merge(
+            data_arrays, join='exact', compat='broadcast_equals'
+        )
+      except ValueError:  # Exact join not possible, or coordinates differ.
         pass
     return data
   if isinstance(first, dict):
-- 
2.43.0


From 93b94ee6613ebae5c06a28ec11bb429dcc488ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 11/24] fix: apply the wrapped loader's add_values_to_coords in
 latency wrappers

---
 weatherbenchX/data_loaders/latency_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weatherbenchX/data_loaders/latency_wrappers.py b/weatherbenchX/data_loaders/latency_wrappers.py
index a3d96c7..606e463 100644
--- a/weatherbenchX/data_loaders/latency_wrappers.py
+++ b/weatherbenchX/data_loaders/latency_wrappers.py
@@ -88,6 +88,7 @@ class ConstantLatencyWrapper(base.DataLoader):
         interpolation=data_loader._interpolation,
         compute=data_loader._compute,
         add_nan_mask=data_loader._add_nan_mask,
+        add_values_to_coords=data_loader._add_values_to_coords,
         process_chunk_fn=data_loader._process_chunk_fn,
     )
 
-- 
2.43.0


From f1bd5b7b105fb9f8a642114244d7eec7a76283d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 12/24] fix: start the lead time slice window at init time plus
 its start

---
 weatherbenchX/data_loaders/sparse_parquet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weatherbenchX/data_loaders/sparse_parquet.py b/weatherbenchX/data_loaders/sparse_parquet.py
index 733b700..6aca838 100644
--- a/weatherbenchX/data_loaders/sparse_parquet.py
+++ b/weatherbenchX/data_loaders/sparse_parquet.py
@@ -206,13 +206,14 @@ class SparseObservationsFromParquet(base.DataLoader):
   ) -> xr.Dataset:
     """Load data for some valid time.
 
-    If lead_time_slice is given, load data for valid_time +/- lead_time_slice.
+    If lead_time_slice is given, load data from valid_time +
+    lead_time_slice.start to valid_time + lead_time_slice.stop.
     Otherwise, tolerance and file tolerance are applied around valid_time.
 
     Args:
       valid_time: Base time to load data for.
-      lead_time_slice: (Optional) If given, load data for valid_time +/-
-        lead_time_slice.
+      lead_time_slice: (Optional) If given, load data for this interval of lead
+        times after valid_time.
 
     Returns:
       xarray.Dataset with data for the given valid_time.
@@ -223,7 +224,7 @@ class SparseObservationsFromParquet(base.DataLoader):
         start_time = valid_time
         stop_time = None
       else:
-        start_time = valid_time - lead_time_slice.start
+        start_time = valid_time + lead_time_slice.start
         stop_time = valid_time + lead_time_slice.stop
 
     else:
-- 
2.43.0


From 2d8b8ba4e84c8b23c02d782fcdc006e35e0ac5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 13/24] fix: refuse sequences of different lengths in
 map_structure

---
 weatherbenchX/xarray_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/xarray_tree.py b/weatherbenchX/xarray_tree.py
index f219763..6dc4967 100644
--- a/weatherbenchX/xarray_tree.py
+++ b/weatherbenchX/xarray_tree.py
@@ -66,5 +66,5 @@ def map_structure(func: Callable[..., Any], *structures: Any) -> Any:
         for k in first.keys()
     }
   if isinstance(first, (list, tuple, set)):
-    return type(first)(map_structure(func, *s) for s in zip(*structures))
+    return type(first)(map_structure(func, *s) for s in zip(*structures, strict=True))
   return func(*structures)
-- 
2.43.0


From c6a3c4e6af28367156eab2c24835b69792377d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 14/24] fix: extrapolate when several dimensions are
 interpolated independently

---
 weatherbenchX/interpolations.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 93db5f1..e147902 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -86,6 +86,23 @@ def pad_longitude(da: xr.DataArray) -> xr.DataArray:
   return xr.concat([left, da, right], 'longitude')
 
 
+def _group_dependent_dims(
+    dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
+) -> list[dict[str, Union[xr.DataArray, np.ndarray]]]:
+  """Groups the dimensions whose target coordinates share a dimension."""
+  groups = []
+  for dim, target in dim_args.items():
+    group, target_dims = {dim: target}, set(getattr(target, 'dims', ()) or [dim])
+    separate = []
+    for other, other_dims in groups:
+      if other_dims & target_dims:
+        group, target_dims = {**other, **group}, other_dims | target_dims
+      else:
+        separate.append((other, other_dims))
+    groups = separate + [(group, target_dims)]
+  return [group for group, _ in groups]
+
+
 def interpolate_to_coords(
     da: xr.DataArray,
     dim_args: Mapping[str, Union[xr.DataArray, np.ndarray]],
@@ -93,6 +110,16 @@ def interpolate_to_coords(
     extrapolate_out_of_bounds: bool = True,
 ) -> xr.DataArray:
   """Interpolate to a fixed set of coordinates."""
+  if extrapolate_out_of_bounds and method in ('linear', 'nearest', 'slinear'):
+    # With these methods xarray interpolates dimensions with independent targets
+    # one after the other, and each needs the extrapolation option of its own
+    # interpolator below.
+    groups = _group_dependent_dims(dim_args)
+    if len(groups) > 1:
+      for group in groups:
+        da = interpolate_to_coords(da, group, method)
+      return da
+
   if extrapolate_out_of_bounds:
     # See xarray documentation for interpolation behaviour.
     # https://docs.xarray.dev/en/latest/generated/xarray.DataArray.interp.html
-- 
2.43.0


From 380e20ae94c9a45f5f921f1f531b7b83963a0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 15/24] fix: altitude adjustment does not add a coordinate to
 its input

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index e147902..4deeec8 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -375,7 +375,7 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       reference: xr.DataArray,  # pytype: disable=signature-mismatch
   ) -> xr.DataArray:
     if da.name in ['2m_temperature', '10m_wind_speed']:
-      da.coords['grid_elevation'] = self._grid_elevation.compute()
+      da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
     if da.name in ['2m_temperature', '10m_wind_speed']:
-- 
2.43.0


From be77321dd7aeb11f2f9763af71a56680b2a58e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 16/24] fix: altitude adjustment handles a reference without
 data

---
 weatherbenchX/interpolations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 4deeec8..a0cf6d5 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -378,6 +378,8 @@ class GridToSparseWithAltitudeAdjustment(InterpolateToReferenceCoords):
       da = da.assign_coords(grid_elevation=self._grid_elevation.compute())
 
     da_like_reference = super().interpolate_data_array(da, reference)
+    if reference.size == 0:
+      return da_like_reference  # Nothing to adjust.
     if da.name in ['2m_temperature', '10m_wind_speed']:
       # Positive if station is higher than grid.
       sparse_higher_than_grid_m = (
-- 
2.43.0


From bbf4602853b42206e5e45992f9db1c68b943d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 17/24] fix: neighborhood sizes given as a tuple

---
 weatherbenchX/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index a0cf6d5..368b4b4 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -458,7 +458,7 @@ class NeighborhoodThresholdProbabilities(Interpolation):
     out = xr.concat(
         out,
         dim=xr.DataArray(
-            self._neighborhood_sizes, dims=['smoothing_neighborhood']
+            list(self._neighborhood_sizes), dims=['smoothing_neighborhood']
         ),
     )
     return out
-- 
2.43.0


From afa3815151fbc45e381f86cd6446db92567eb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 18/24] fix: clipping keeps reference coordinates in descending
 order

---
 weatherbenchX/interpolations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/interpolations.py b/weatherbenchX/interpolations.py
index 368b4b4..71848ac 100644
--- a/weatherbenchX/interpolations.py
+++ b/weatherbenchX/interpolations.py
@@ -288,9 +288,10 @@ class InterpolateToReferenceCoords(Interpolation):
 
     if self._clip_reference_coords is not None:
       for coord in self._clip_reference_coords:
-        reference = reference.sel(
-            {coord: slice(da[coord].min(), da[coord].max())}
+        in_range = (reference[coord] >= da[coord].min()) & (
+            reference[coord] <= da[coord].max()
         )
+        reference = reference.isel({coord: np.flatnonzero(in_range)})
 
     # If dims not explicit, interpolate all dims that have a corresponding
     # coordinate in the reference.
-- 
2.43.0


From 6a811602cd0e858731e9357182bbebdc1ba6bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 19/24] fix: stationary bootstrap does not skip units with
 missing statistics

---
 weatherbenchX/statistical_inference/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index efc00b0..6a1780c 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -544,8 +544,10 @@ class StationaryBootstrap(Bootstrap):
       # Note the dimensions of bootstrap_indices (experimental_unit_dim,
       # _REPLICATE_DIM) that we're selecting, will be present in the result of
       # the isel call.
+      # Missing values are not skipped, as in AggregationState.sum_along_dims: the
+      # weights of the skipped units would still be counted.
       return data.isel({self._experimental_unit_dim: bootstrap_indices}).sum(
-          self._experimental_unit_dim)
+          self._experimental_unit_dim, skipna=False)
     sum_weighted_stats, sum_weights = xarray_tree.map_structure(
         sum_of_resampled, (sum_weighted_stats, sum_weights))
     mean_stats = xarray_tree.map_structure(
-- 
2.43.0


From dd212ade339f405ac09ff29aefbf2aa109515d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:52 +0000
Subject: [PATCH 20/24] fix: combining slices of named arrays gives an array

---
 weatherbenchX/statistical_inference/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/statistical_inference/utils.py b/weatherbenchX/statistical_inference/utils.py
index a32ed90..d4ef874 100644
--- a/weatherbenchX/statistical_inference/utils.py
+++ b/weatherbenchX/statistical_inference/utils.py
@@ -134,5 +134,8 @@ def apply_to_slices(
     arg_slices = xarray_tree.map_structure(slice_arg, args)
     results.append(func(*arg_slices))
 
-  return xarray_tree.map_structure(
-      lambda *args: xr.combine_by_coords(args), *results)
+  def combine(*slices):
+    # combine_by_coords would return a Dataset if the DataArrays are named.
+    combined = xr.combine_by_coords([s.rename(None) for s in slices])
+    return combined.rename(slices[0].name)
+  return xarray_tree.map_structure(combine, *results)
-- 
2.43.0


From bcb4059cfb308ce387614915c389dddd5f2630b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 21/24] fix: bootstrap p-values at values repeated among the
 replicates

---
 weatherbenchX/statistical_inference/bootstrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherbenchX/statistical_inference/bootstrap.py b/weatherbenchX/statistical_inference/bootstrap.py
index 6a1780c..6db7325 100644
--- a/weatherbenchX/statistical_inference/bootstrap.py
+++ b/weatherbenchX/statistical_inference/bootstrap.py
@@ -116,7 +116,12 @@ class Bootstrap(base.StatisticalInferenceMethod):
       data = np.sort(resampled)
       q = np.linspace(0, 1, data.shape[0])
       empirical_cdf_at_null = np.interp(null_value, data, q)
-      return 2 * min(empirical_cdf_at_null, 1 - empirical_cdf_at_null)
+      # The CDF jumps at values that occur more than once, and the confidence
+      # interval contains these for all levels covered by the jump.
+      ties = q[data == null_value]
+      lower = ties.min() if ties.size else empirical_cdf_at_null
+      upper = ties.max() if ties.size else empirical_cdf_at_null
+      return min(1., 2 * min(upper, 1 - lower))
 
     def p_value(resampled: xr.DataArray) -> xr.DataArray:
       return xr.apply_ufunc(
-- 
2.43.0


From 48f7048457b16fa57189f87bf22aa1bc3909026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:59 +0000
Subject: [PATCH 22/24] fix: squared anomalies keep the coordinates of the
 unused input

SquaredPredictionAnomaly and SquaredTargetAnomaly dropped the mask of the input
they do not use, so that a masked aggregation averaged the two variances and
the covariance of ACC over different elements.
---
 weatherbenchX/metrics/deterministic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherbenchX/metrics/deterministic.py b/weatherbenchX/metrics/deterministic.py
index c7caf9b..d069afd 100644
--- a/weatherbenchX/metrics/deterministic.py
+++ b/weatherbenchX/metrics/deterministic.py
@@ -244,7 +244,8 @@ class SquaredPredictionAnomaly(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     prediction_anom = predictions - aligned_climatology
-    return prediction_anom**2
+    # Make sure potential coordinates from targets (e.g. mask) are preserved.
+    return prediction_anom**2 + xr.zeros_like(targets)
 
 
 class SquaredTargetAnomaly(base.PerVariableStatisticWithClimatology):
@@ -257,7 +258,8 @@ class SquaredTargetAnomaly(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     target_anom = targets - aligned_climatology
-    return target_anom**2
+    # Make sure potential coordinates from predictions (e.g. mask) are preserved.
+    return target_anom**2 + xr.zeros_like(predictions)
 
 
 class AnomalyCovariance(base.PerVariableStatisticWithClimatology):
-- 
2.43.0


From 3c26e56dbd5a08eee8b77e25767d4aaa1e35d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:59 +0000
Subject: [PATCH 23/24] fix: ensemble spread and variance keep the coordinates
 of the unused input

CRPSSpread and EnsembleVariance dropped the mask of the input they do not use,
so that a masked aggregation averaged the skill and the spread over different
elements.
---
 weatherbenchX/metrics/probabilistic.py | 34 ++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/metrics/probabilistic.py b/weatherbenchX/metrics/probabilistic.py
index 9ae6a44..ee707ee 100644
--- a/weatherbenchX/metrics/probabilistic.py
+++ b/weatherbenchX/metrics/probabilistic.py
@@ -116,6 +116,27 @@ class EnsembleAveragedMetric(base.Metric):
     return self._wrapped_metric.values_from_mean_statistics(statistic_values)
 
 
+def _preserve_coords(
+    result: xr.DataArray, other: xr.DataArray, ensemble_dim: str
+) -> xr.DataArray:
+  """Adds coordinates of `other` (e.g. mask) to a statistic that ignores it.
+
+  All the statistics of a metric need to be aggregated over the same elements.
+
+  Args:
+    result: Statistic computed from only one of predictions and targets.
+    other: The one of predictions and targets that was not used.
+    ensemble_dim: Name of the ensemble dimension, ignored in `other`.
+
+  Returns:
+    The statistic, with coordinates of `other` without the ensemble dimension.
+  """
+  zeros = xr.zeros_like(other)
+  if ensemble_dim in zeros.dims:
+    zeros = zeros.sum(ensemble_dim)
+  return result + zeros
+
+
 class CRPSSkill(base.PerVariableStatistic):
   """The skill measure associated with CRPS, E|X - Y|."""
 
@@ -200,9 +221,9 @@ class CRPSSpread(base.PerVariableStatistic):
       targets: xr.DataArray,
   ) -> xr.DataArray:
     if self._which == 'predictions':
-      da = predictions
+      da, other = predictions, targets
     elif self._which == 'targets':
-      da = targets
+      da, other = targets, predictions
     else:
       raise ValueError(f'Unhandled {self._which=}')
 
@@ -232,7 +253,7 @@ class CRPSSpread(base.PerVariableStatistic):
       # compute and memory but with a smaller constant factor due to being
       # easily parallelizable.
       rank = _rank_da(da, self._ensemble_dim)
-      return (
+      spread = (
           2
           * (
               ((2 * rank - n_ensemble - 1) * da).mean(
@@ -244,11 +265,13 @@ class CRPSSpread(base.PerVariableStatistic):
     else:
       second_ensemble_dim = 'ensemble_dim_2'
       da_2 = da.rename({self._ensemble_dim: second_ensemble_dim})
-      return abs(da - da_2).sum(
+      spread = abs(da - da_2).sum(
           dim=(self._ensemble_dim, second_ensemble_dim),
           skipna=self._skipna_ensemble,
       ) / (n_ensemble * (n_ensemble - int(self._fair)))
 
+    return _preserve_coords(spread, other, self._ensemble_dim)
+
 
 class EnsembleVariance(base.PerVariableStatistic):
   """Computes the mean variance in the ensemble dimension.
@@ -271,9 +294,10 @@ class EnsembleVariance(base.PerVariableStatistic):
       predictions: xr.DataArray,
       targets: xr.DataArray,
   ) -> xr.DataArray:
-    return predictions.var(
+    variance = predictions.var(
         dim=self._ensemble_dim, ddof=1, skipna=self._skipna_ensemble
     )
+    return _preserve_coords(variance, targets, self._ensemble_dim)
 
 
 class UnbiasedEnsembleMeanSquaredError(base.PerVariableStatistic):
-- 
2.43.0


From 2a4194dbfa8b60d02cc315b56db82e6628564807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:53 +0000
Subject: [PATCH 24/24] fix: forecast-of-opportunity statistics keep the
 coordinates of targets

Confident and JaccardDistant dropped the mask of the targets, so that a masked
aggregation multiplied frequencies over different elements.
---
 weatherbenchX/metrics/categorical.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/weatherbenchX/metrics/categorical.py b/weatherbenchX/metrics/categorical.py
index 4c30627..9c5de68 100644
--- a/weatherbenchX/metrics/categorical.py
+++ b/weatherbenchX/metrics/categorical.py
@@ -733,8 +733,6 @@ class Confident(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     """Computes confidence per variable."""
-    del targets  # Unused.
-
     # Get the spread of the predictions.
     predictions_spread = predictions.quantile(
         self._spread_high, dim=self._ensemble_dim
@@ -745,7 +743,11 @@ class Confident(base.PerVariableStatisticWithClimatology):
         quantile=self._spread_high
     ) - aligned_climatology.sel(quantile=self._spread_low)
 
-    return predictions_spread < self._confidence_threshold * climatology_spread
+    confident = (
+        predictions_spread < self._confidence_threshold * climatology_spread
+    )
+    # Make sure potential coordinates from targets (e.g. mask) are preserved.
+    return confident & xr.ones_like(targets, dtype=bool)
 
 
 class Covered(base.PerVariableStatistic):
@@ -825,7 +827,6 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
       aligned_climatology: xr.DataArray,
   ) -> xr.DataArray:
     """Computes jaccard distance per variable."""
-    del targets  # Unused.
     predictions_low = predictions.quantile(
         self._interval_low, dim=self._ensemble_dim
     )
@@ -861,7 +862,10 @@ class JaccardDistant(base.PerVariableStatisticWithClimatology):
     )
 
     jaccard_distance = 1 - jaccard_index
-    return jaccard_distance > self._threshold
+    # Make sure potential coordinates from targets (e.g. mask) are preserved.
+    return (jaccard_distance > self._threshold) & xr.ones_like(
+        targets, dtype=bool
+    )
 
 
 class Opportunism(base.PerVariableMetric):
-- 
2.43.0

