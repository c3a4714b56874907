From 87caa9404c15a33377e5fca43132e9742d1ef856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 01/57] fix: memory monitor always takes a sample and is always
 stopped

---
 improver/memprofile.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/improver/memprofile.py b/improver/memprofile.py
index 9182033..b8bc3e2 100644
--- a/improver/memprofile.py
+++ b/improver/memprofile.py
@@ -43,6 +43,8 @@ def memory_profile_end(queue: Queue, thread: Thread) -> None:
     """
     queue.put("Stop")
     thread.join()
+    # in case the monitor failed before it could stop tracing itself
+    tracemalloc.stop()
 
 
 def memory_monitor(queue: Queue, outfile_prefix: str) -> None:
@@ -72,7 +74,8 @@ def memory_monitor(queue: Queue, outfile_prefix: str) -> None:
         b2mb = 1 / 1024
 
     while True:
-        if queue.empty():
+        # sample at least once, so that there is always a snapshot to dump
+        if snapshot is None or queue.empty():
             time.sleep(wait_time)
             max_rss = getrusage(RUSAGE_SELF).ru_maxrss
             if max_rss > old_max:
@@ -103,8 +106,10 @@ def memory_profile_decorator(func: Callable, outfile_prefix: str) -> Callable:
 
     def wrapper(*args, **kwargs):
         thread, queue = memory_profile_start(outfile_prefix)
-        results = func(*args, **kwargs)
-        memory_profile_end(queue, thread)
+        try:
+            results = func(*args, **kwargs)
+        finally:
+            memory_profile_end(queue, thread)
         return results
 
     return wrapper
-- 
2.43.0


From 27f7ccfc54789f81ee64320bf385678d53528814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 02/57] fix: save through a temporary file of its own and
 remove it on failure

---
 improver/utilities/save.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/improver/utilities/save.py b/improver/utilities/save.py
index 98f3c4c..8a586b1 100644
--- a/improver/utilities/save.py
+++ b/improver/utilities/save.py
@@ -7,6 +7,7 @@
 import os
 import warnings
 from typing import Optional, Union
+from uuid import uuid4
 
 import cf_units
 import iris
@@ -131,16 +132,22 @@ def save_netcdf(
             "Compression level must be an integer value between 0 and 9 (0 to disable compression)"
         )
 
-    # save atomically by writing to a temporary file and then renaming
-    ftmp = str(filename) + ".tmp"
-    iris.fileformats.netcdf.save(
-        cubelist,
-        ftmp,
-        local_keys=local_keys,
-        complevel=compression_level,
-        shuffle=True,
-        zlib=compression_level > 0,
-        chunksizes=chunksizes,
-        least_significant_digit=least_significant_digit,
-    )
-    os.rename(ftmp, filename)
+    # save atomically by writing to a temporary file and then renaming; the
+    # temporary name is unique so that concurrent saves do not share it
+    ftmp = "{}.{}.tmp".format(filename, uuid4().hex)
+    try:
+        iris.fileformats.netcdf.save(
+            cubelist,
+            ftmp,
+            local_keys=local_keys,
+            complevel=compression_level,
+            shuffle=True,
+            zlib=compression_level > 0,
+            chunksizes=chunksizes,
+            least_significant_digit=least_significant_digit,
+        )
+        os.rename(ftmp, filename)
+    except BaseException:
+        if os.path.exists(ftmp):
+            os.remove(ftmp)
+        raise
-- 
2.43.0


From e20407e72af6676df35ec07551703ed411f0fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 03/57] fix: close the datasets after comparing them

---
 improver/utilities/compare.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index 91a2368..c2ba8ee 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -73,20 +73,25 @@ def compare_netcdfs(
     try:
         desired_ds = netCDF4.Dataset(str(desired_path), mode="r")
     except OSError as exc:
+        actual_ds.close()
         reporter(str(exc))
         return
     desired_ds.set_auto_maskandscale(False)
     actual_ds.set_auto_maskandscale(False)
-    compare_datasets(
-        "",
-        actual_ds,
-        desired_ds,
-        rtol,
-        atol,
-        exclude_vars,
-        ignored_attributes,
-        reporter,
-    )
+    try:
+        compare_datasets(
+            "",
+            actual_ds,
+            desired_ds,
+            rtol,
+            atol,
+            exclude_vars,
+            ignored_attributes,
+            reporter,
+        )
+    finally:
+        actual_ds.close()
+        desired_ds.close()
 
 
 def compare_datasets(
-- 
2.43.0


From 32b20f6ae1ab39b3a15bf2587884ee740ac69e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 04/57] fix: compare attribute types of arrays, and NaN
 attributes as equal

---
 improver/utilities/compare.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index c2ba8ee..f26ea7b 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -19,7 +19,7 @@ or raise an appropriate exception.
 """
 
 from os import PathLike
-from typing import Callable, List, Optional
+from typing import Any, Callable, List, Optional
 
 import netCDF4
 import numpy as np
@@ -271,6 +271,15 @@ def compare_vars(
             compare_data(var_path, actual_var, desired_var, rtol, atol, reporter)
 
 
+def _equal_with_nan(actual: Any, desired: Any) -> bool:
+    """Whether attribute values are equal, taking NaNs to be equal to each other."""
+    try:
+        np.testing.assert_array_equal(actual, desired)
+    except AssertionError:
+        return False
+    return np.shape(actual) == np.shape(desired)
+
+
 def compare_attributes(
     name: str,
     actual_ds: Dataset,
@@ -319,14 +328,20 @@ def compare_attributes(
                 f"{type(actual_attr)} {type(desired_attr)}"
             )
             reporter(msg)
+        elif getattr(actual_attr, "dtype", None) != getattr(desired_attr, "dtype", None):
+            msg = (
+                f"different attribute type {name}/{key} - "
+                f"{actual_attr.dtype} {desired_attr.dtype}"
+            )
+            reporter(msg)
         if isinstance(desired_attr, np.ndarray):
-            if not np.array_equal(actual_attr, desired_attr):
+            if not _equal_with_nan(actual_attr, desired_attr):
                 msg = (
                     f"different attribute value {name}/{key} - "
                     f"{actual_attr} {desired_attr}"
                 )
                 reporter(msg)
-        elif actual_attr != desired_attr:
+        elif not _equal_with_nan(actual_attr, desired_attr):
             msg = (
                 f"different attribute value {name}/{key} - "
                 f"{actual_attr} {desired_attr}"
-- 
2.43.0


From 32c45c4d3804d699edf7f258579f424b098fa377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 05/57] fix: compare scalar string variables

---
 improver/utilities/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index f26ea7b..c89ee5f 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -377,8 +377,8 @@ def compare_data(
     if actual_var.dtype != desired_var.dtype:
         msg = f"different type {name} - {actual_var.dtype} {desired_var.dtype}"
         reporter(msg)
-    actual_data = actual_var[:]
-    desired_data = desired_var[:]
+    actual_data = np.asanyarray(actual_var[:])
+    desired_data = np.asanyarray(desired_var[:])
     difference_found = False
     numpy_err_message = ""
     try:
-- 
2.43.0


From 644c08dd44a130ba5b91037f83bac57a3d6a4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 06/57] fix: report variables whose dimensions differ

---
 improver/utilities/compare.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/utilities/compare.py b/improver/utilities/compare.py
index c89ee5f..fc990bf 100644
--- a/improver/utilities/compare.py
+++ b/improver/utilities/compare.py
@@ -265,6 +265,12 @@ def compare_vars(
         compare_attributes(
             var_path, actual_var, desired_var, ignored_attributes, reporter,
         )
+        if actual_var.dimensions != desired_var.dimensions:
+            msg = (
+                f"different dimensions {var_path} - "
+                f"{actual_var.dimensions} {desired_var.dimensions}"
+            )
+            reporter(msg)
         if var in coord_vars:
             compare_data(var_path, actual_var, desired_var, 0.0, 0.0, reporter)
         else:
-- 
2.43.0


From 3b0a5b7781054e14d2baa820e3cbebc97f993bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 07/57] fix: start each WindDirection call with an empty list
 of slices

An instance kept the slices of its earlier calls and could only be used once.
---
 improver/wind_calculations/wind_direction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/wind_calculations/wind_direction.py b/improver/wind_calculations/wind_direction.py
index bd1f8ce..f9230b7 100644
--- a/improver/wind_calculations/wind_direction.py
+++ b/improver/wind_calculations/wind_direction.py
@@ -237,6 +237,7 @@ class WindDirection(PostProcessingPlugin):
             msg = "Input cube cannot be converted to degrees: {}".format(err)
             raise ValueError(msg)
 
+        self.wdir_cube_list = iris.cube.CubeList()
         self.n_realizations = len(cube_ens_wdir.coord("realization").points)
         y_coord_name = cube_ens_wdir.coord(axis="y").name()
         x_coord_name = cube_ens_wdir.coord(axis="x").name()
-- 
2.43.0


From 007dedbca6f8aa4328c37574476fe25cf55152ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 08/57] fix: restore stdout when the redirected code fails

---
 improver/utilities/redirect_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/redirect_stdout.py b/improver/utilities/redirect_stdout.py
index 32ef1f8..c2170c3 100644
--- a/improver/utilities/redirect_stdout.py
+++ b/improver/utilities/redirect_stdout.py
@@ -19,5 +19,7 @@ def redirect_stdout(target=None):
     """
     original = sys.stdout
     sys.stdout = target
-    yield
-    sys.stdout = original
+    try:
+        yield
+    finally:
+        sys.stdout = original
-- 
2.43.0


From c10bebfaef2aa1788d4ad75865dd6409792c6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 09/57] fix: leave the process-wide number formatting as it is

---
 improver/calibration/ensemble_calibration.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/improver/calibration/ensemble_calibration.py b/improver/calibration/ensemble_calibration.py
index 200137e..91932e0 100644
--- a/improver/calibration/ensemble_calibration.py
+++ b/improver/calibration/ensemble_calibration.py
@@ -311,17 +311,17 @@ class ContinuousRankedProbabilityScoreMinimisers(BasePlugin):
             np.absolute((allvecs[-1] - allvecs[-2]) / allvecs[-2]) * 100
         )
         if np.any(last_iteration_percentage_change > self.TOLERATED_PERCENTAGE_CHANGE):
-            np.set_printoptions(suppress=True)
-            msg = (
-                "The final iteration resulted in a percentage change "
-                f"that is greater than the accepted threshold of "
-                f"{self.TOLERATED_PERCENTAGE_CHANGE}% "
-                f"i.e. {last_iteration_percentage_change}. "
-                "\nA satisfactory minimisation has not been achieved. "
-                f"\nLast iteration: {allvecs[-1]}, "
-                f"\nLast-but-one iteration: {allvecs[-2]}"
-                f"\nAbsolute difference: {np.absolute(allvecs[-2] - allvecs[-1])}\n"
-            )
+            with np.printoptions(suppress=True):
+                msg = (
+                    "The final iteration resulted in a percentage change "
+                    f"that is greater than the accepted threshold of "
+                    f"{self.TOLERATED_PERCENTAGE_CHANGE}% "
+                    f"i.e. {last_iteration_percentage_change}. "
+                    "\nA satisfactory minimisation has not been achieved. "
+                    f"\nLast iteration: {allvecs[-1]}, "
+                    f"\nLast-but-one iteration: {allvecs[-2]}"
+                    f"\nAbsolute difference: {np.absolute(allvecs[-2] - allvecs[-1])}\n"
+                )
             warnings.warn(msg)
 
     def _minimise_caller(
-- 
2.43.0


From 6df01f6b57209730093bf00573ec33e8a4f283b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 10/57] fix: keep the mask of a forecast whose data are
 flattened

---
 improver/calibration/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 8463c80..4cc019f 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -44,7 +44,7 @@ def convert_cube_data_to_2d(
     """
     forecast_data = []
     if np.ma.is_masked(forecast.data):
-        forecast.data = np.ma.filled(forecast.data, np.nan)
+        forecast = forecast.copy(data=np.ma.filled(forecast.data, np.nan))
 
     for coord_slice in forecast.slices_over(coord):
         forecast_data.append(coord_slice.data.flatten())
-- 
2.43.0


From 6a95160d029eb4aa5b9a0868c0940aee8a9427b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 11/57] fix: leave a single categorical input unchanged when
 finding the mode

---
 improver/categorical/modal_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/categorical/modal_code.py b/improver/categorical/modal_code.py
index 0c09b3a..4f9c7b3 100644
--- a/improver/categorical/modal_code.py
+++ b/improver/categorical/modal_code.py
@@ -209,7 +209,8 @@ class ModalCategory(BasePlugin):
         if self.record_run_attr and self.model_id_attr:
             store_record_run_as_coord(cubes, self.record_run_attr, self.model_id_attr)
 
-        cube = MergeCubes()(cubes)
+        # merging a single cube returns that cube, which must not be modified
+        cube = MergeCubes()(cubes).copy()
 
         # Create the expected cell method. The aggregator adds a cell method
         # but cannot include an interval, so we create it here manually,
-- 
2.43.0


From fa81637e8dd4b54bea9e3700398aae7dcedd8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 12/57] fix: leave the input of the spot height adjustment
 unchanged

---
 improver/spotdata/height_adjustment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/spotdata/height_adjustment.py b/improver/spotdata/height_adjustment.py
index 9335f00..20a14ef 100644
--- a/improver/spotdata/height_adjustment.py
+++ b/improver/spotdata/height_adjustment.py
@@ -150,6 +150,8 @@ class SpotHeightAdjustment(BasePlugin):
             neighbour_selection_method_name=self.neighbour_selection_method,
         )
 
+        spot_cube = spot_cube.copy()
+
         if is_probability(spot_cube):
             threshold_coord = find_threshold_coordinate(spot_cube)
             self.threshold_coord = threshold_coord.copy()
-- 
2.43.0


From 77463246fd0905886115f4289041d0404823f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 13/57] fix: leave the inputs of the temporal interpolation
 unchanged

---
 improver/utilities/temporal_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/utilities/temporal_interpolation.py b/improver/utilities/temporal_interpolation.py
index d887c65..79949f5 100644
--- a/improver/utilities/temporal_interpolation.py
+++ b/improver/utilities/temporal_interpolation.py
@@ -623,6 +623,9 @@ class TemporalInterpolation(BasePlugin):
         ):
             return CubeList([cube_t1])
 
+        # The steps below modify the data of both cubes
+        cube_t0, cube_t1 = cube_t0.copy(), cube_t1.copy()
+
         # If the units of the two cubes are degrees, assume we are dealing with
         # directions. Convert the directions to complex numbers so
         # interpolations (esp. the 0/360 wraparound) are handled in a sane
-- 
2.43.0


From fa47a24f6817b8004631d47bbec16b1a687be914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 14/57] fix: keep the threshold coordinate of the field texture
 input

---
 improver/utilities/textural.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/utilities/textural.py b/improver/utilities/textural.py
index 3a2fa04..4f66392 100644
--- a/improver/utilities/textural.py
+++ b/improver/utilities/textural.py
@@ -211,6 +211,8 @@ class FieldTexture(BasePlugin):
             )
         )
         try:
+            # extract may return the input cube itself
+            cube = cube.copy()
             cube.remove_coord(cube_name)
         except AttributeError:
             msg = "Threshold {} is not present on coordinate with values {} {}"
-- 
2.43.0


From 96e9060f99f0ed2f792d773f1f6cf3c20a051b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 15/57] fix: leave the smoothing coefficients given to the
 recursive filter unchanged

---
 improver/nbhood/recursive_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/nbhood/recursive_filter.py b/improver/nbhood/recursive_filter.py
index a9c391f..4d357a0 100644
--- a/improver/nbhood/recursive_filter.py
+++ b/improver/nbhood/recursive_filter.py
@@ -222,7 +222,9 @@ class RecursiveFilter(PostProcessingPlugin):
                 smoothing coefficient cube does not have the expected points.
         """
         # Ensure cubes are in x, y order.
-        smoothing_coefficients.sort(key=lambda cell: cell.name())
+        smoothing_coefficients = sorted(
+            smoothing_coefficients, key=lambda cell: cell.name()
+        )
         axes = ["x", "y"]
 
         for axis, smoothing_coefficient in zip(axes, smoothing_coefficients):
@@ -303,6 +305,7 @@ class RecursiveFilter(PostProcessingPlugin):
         plugin = OrographicSmoothingCoefficients(
             use_mask_boundary=False, invert_mask=False
         )
+        coeffs_x, coeffs_y = coeffs_x.copy(), coeffs_y.copy()
         plugin.zero_masked(coeffs_x, coeffs_y, mask)
         return coeffs_x, coeffs_y
 
-- 
2.43.0


From df6ed03e578c86c0778733f264afceb91316bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 16/57] fix: leave the interpolated land mask unchanged

---
 improver/generate_ancillaries/generate_ancillary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/generate_ancillaries/generate_ancillary.py b/improver/generate_ancillaries/generate_ancillary.py
index 37e21cd..9c2f6a7 100644
--- a/improver/generate_ancillaries/generate_ancillary.py
+++ b/improver/generate_ancillaries/generate_ancillary.py
@@ -135,6 +135,7 @@ class CorrectLandSeaMask(BasePlugin):
         Returns:
             output landmask of boolean values.
         """
+        standard_landmask = standard_landmask.copy()
         mask_sea = standard_landmask.data < 0.5
         standard_landmask.data[mask_sea] = False
         mask_land = standard_landmask.data > 0.0
-- 
2.43.0


From fb5165cd850d9652bad8397d1ce97a3731523b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 17/57] fix: leave both inputs of apply_mask unchanged

---
 improver/utilities/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/utilities/mask.py b/improver/utilities/mask.py
index db3b4af..35da57f 100644
--- a/improver/utilities/mask.py
+++ b/improver/utilities/mask.py
@@ -52,7 +52,8 @@ def apply_mask(
 
     mask = cubes.extract_cube(mask_name)
     cubes.remove(mask)
-    cube = cubes[0]
+    mask = mask.copy()
+    cube = cubes[0].copy()
 
     # Ensure mask is in a boolean form and invert if requested
     mask.data = mask.data.astype(np.bool)
-- 
2.43.0


From ecf42fb8eece5919588af914ee0332fd83903a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 18/57] fix: leave the masked bias values unchanged

---
 improver/calibration/simple_bias_correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/simple_bias_correction.py b/improver/calibration/simple_bias_correction.py
index a350ec3..760f3dd 100644
--- a/improver/calibration/simple_bias_correction.py
+++ b/improver/calibration/simple_bias_correction.py
@@ -84,7 +84,7 @@ def apply_additive_correction(
         An array containing the corrected forecast values.
     """
     if fill_masked_bias_values and isinstance(bias.data, ma.masked_array):
-        bias.data = ma.MaskedArray.filled(bias.data, 0.0)
+        bias = bias.copy(data=ma.MaskedArray.filled(bias.data, 0.0))
     corrected_forecast = forecast - bias
     return corrected_forecast.data
 
-- 
2.43.0


From 0d5950ac218b769c6942fe9e7ac4e4527f425e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 19/57] fix: leave the percentiles that are rebadged as
 realizations unchanged

---
 improver/ensemble_copula_coupling/ensemble_copula_coupling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index f49fd47..8b4c178 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -175,6 +175,7 @@ class RebadgePercentilesAsRealizations(BasePlugin):
                 len(cube.coord(percentile_coord_name).points), dtype=np.int32
             )
 
+        cube = cube.copy()
         cube.coord(percentile_coord_name).points = ensemble_realization_numbers
 
         # we can't rebadge if the realization coordinate already exists:
-- 
2.43.0


From bb87309386cdffd67c3f4240421dd9542b625c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 20/57] fix: leave a decision tree that is checked unchanged

---
 improver/categorical/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index b0367e4..d09f41a 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -5,6 +5,7 @@
 """This module defines the utilities required for decision tree plugin """
 
 from collections import OrderedDict
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Union
 
 import iris
@@ -368,6 +369,7 @@ def check_tree(
     if not isinstance(decision_tree, dict):
         raise ValueError("Decision tree is not a dictionary")
 
+    decision_tree = deepcopy(decision_tree)
     issues = []
     meta = decision_tree.pop("meta", None)
     if meta is None:
-- 
2.43.0


From 9de33f076f9dba0815f946c228b2459db471d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 21/57] fix: leave the attributes given for a new diagnostic
 unchanged

---
 improver/metadata/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/metadata/utilities.py b/improver/metadata/utilities.py
index ffbd131..59f2fc7 100644
--- a/improver/metadata/utilities.py
+++ b/improver/metadata/utilities.py
@@ -59,7 +59,7 @@ def create_new_diagnostic_cube(
     Returns:
         Cube with correct metadata to accommodate new diagnostic field
     """
-    attributes = mandatory_attributes
+    attributes = dict(mandatory_attributes)
     if optional_attributes is not None:
         attributes.update(optional_attributes)
 
-- 
2.43.0


From 7a87df3340730d05c265eb8f5b1237da32a78bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 22/57] fix: leave the list of coordinates to aggregate over
 unchanged

---
 improver/calibration/reliability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 7d291f7..586e861 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -588,7 +588,7 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Returns:
             Aggregated cube
         """
-        coordinates = [] if coordinates is None else coordinates
+        coordinates = [] if coordinates is None else list(coordinates)
 
         try:
             (cube,) = cubes
-- 
2.43.0


From 116a100dfd403631619224012b32d6c2e2053a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 23/57] fix: leave the order of the cubes given to the optical
 flow functions unchanged

---
 improver/nowcasting/optical_flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/nowcasting/optical_flow.py b/improver/nowcasting/optical_flow.py
index 22b7923..2201fe1 100644
--- a/improver/nowcasting/optical_flow.py
+++ b/improver/nowcasting/optical_flow.py
@@ -51,7 +51,7 @@ def generate_optical_flow_components(
         - Cube of x-advection velocities u_mean
         - Cube of y-advection velocities v_mean
     """
-    cube_list.sort(key=lambda x: x.coord("time").points[0])
+    cube_list = sorted(cube_list, key=lambda x: x.coord("time").points[0])
     time_coord = cube_list[-1].coord("time")
 
     ofc_plugin = OpticalFlow(iterations=smart_smoothing_iterations)
@@ -99,7 +99,7 @@ def generate_advection_velocities_from_winds(
     Returns:
         u- and v- advection velocities
     """
-    cubes.sort(key=lambda x: x.coord("time").points[0])
+    cubes = sorted(cubes, key=lambda x: x.coord("time").points[0])
 
     lead_time_seconds = (
         cubes[1].coord("time").cell(0).point - cubes[0].coord("time").cell(0).point
-- 
2.43.0


From 55ddf3397867fe35fc7e9d11c315eaff23b56288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 24/57] fix: leave the input of the wind gust diagnostic
 unchanged

---
 improver/wind_calculations/wind_gust_diagnostic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/wind_calculations/wind_gust_diagnostic.py b/improver/wind_calculations/wind_gust_diagnostic.py
index 4fa46df..4a70c77 100644
--- a/improver/wind_calculations/wind_gust_diagnostic.py
+++ b/improver/wind_calculations/wind_gust_diagnostic.py
@@ -176,7 +176,7 @@ class WindGustDiagnostic(PostProcessingPlugin):
                 raise ValueError(msg)
 
         # Add metadata to gust cube
-        req_cube_gust = self.add_metadata(req_cube_gust)
+        req_cube_gust = self.add_metadata(req_cube_gust.copy())
 
         # Calculate wind-gust diagnostic
         result = req_cube_gust.copy(
-- 
2.43.0


From 877ca3aed1118079509ff031e6c2d29d055fde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 25/57] fix: leave the decision tree given to the decision tree
 plugin unchanged

---
 improver/categorical/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index d09f41a..15f4add 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -86,6 +86,10 @@ def update_tree_thresholds(
             values = values * target_period / period
         return iris.coords.AuxCoord(values, units=units)
 
+    tree = {
+        key: query.copy() if is_decision_node(key, query) else query
+        for key, query in tree.items()
+    }
     for key, query in tree.items():
         if not is_decision_node(key, query) or query.get("deterministic", False):
             continue
-- 
2.43.0


From 80ee7f84b136faeeeac6931ee3581ae579b5b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 26/57] fix: reorder ensembles that have several times

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 8b4c178..24dc381 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -1400,15 +1400,15 @@ class EnsembleReordering(BasePlugin):
             point, the ranking of the values within the ensemble matches
             the ranking from the raw ensemble.
         """
+        if random_seed is not None:
+            random_seed = int(random_seed)
+        random_state = np.random.RandomState(random_seed)
         results = iris.cube.CubeList([])
         for rawfc, calfc in zip(
             raw_forecast_realizations.slices_over("time"),
             post_processed_forecast_percentiles.slices_over("time"),
         ):
-            if random_seed is not None:
-                random_seed = int(random_seed)
-            random_seed = np.random.RandomState(random_seed)
-            random_data = random_seed.rand(*rawfc.data.shape)
+            random_data = random_state.rand(*rawfc.data.shape)
             if random_ordering:
                 # Returns the indices that would sort the array.
                 # As these indices are from a random dataset, only an argsort
-- 
2.43.0


From 7b17da49c868d6d587e20c891f35d22cb7e27c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 27/57] fix: rebadge equally spaced percentiles of large
 ensembles

---
 .../ensemble_copula_coupling/ensemble_copula_coupling.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
index 24dc381..4b9b5dd 100644
--- a/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
+++ b/improver/ensemble_copula_coupling/ensemble_copula_coupling.py
@@ -159,8 +159,12 @@ class RebadgePercentilesAsRealizations(BasePlugin):
 
         # percentiles cannot be rebadged unless they are evenly spaced,
         # centred on 50th percentile, and equally partition percentile
-        # space
-        if not np.isclose(np.max(percentile_diffs), np.min(percentile_diffs)):
+        # space. As percentiles are stored as 32-bit numbers, the differences
+        # are only known to within the rounding of values of up to 100.
+        rounding = 2 * np.spacing(np.float32(100))
+        if not np.isclose(
+            np.max(percentile_diffs), np.min(percentile_diffs), atol=rounding
+        ):
             msg = (
                 "The percentile cube provided cannot be rebadged as ensemble "
                 "realizations. The input percentiles need to be equally spaced, "
-- 
2.43.0


From 272c4d4455c91622ef7853ffd3066a58168d5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 28/57] fix: keep the order of cell methods when merging cubes

---
 improver/utilities/cube_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 6a94ce1..5b65724 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -170,7 +170,7 @@ class MergeCubes(BasePlugin):
         """
         cell_methods = cubelist[0].cell_methods
         for cube in cubelist[1:]:
-            cell_methods = list(set(cell_methods) & set(cube.cell_methods))
+            cell_methods = [cm for cm in cell_methods if cm in cube.cell_methods]
         for cube in cubelist:
             cube.cell_methods = tuple(cell_methods)
 
-- 
2.43.0


From 85f11bb095f17d05e2ad80d0ee8cd8f4f3262f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 29/57] fix: accelerated interpolation agrees with np.interp at
 repeated points

---
 improver/ensemble_copula_coupling/numba_utilities.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/improver/ensemble_copula_coupling/numba_utilities.py b/improver/ensemble_copula_coupling/numba_utilities.py
index 8d80d77..f8d9006 100644
--- a/improver/ensemble_copula_coupling/numba_utilities.py
+++ b/improver/ensemble_copula_coupling/numba_utilities.py
@@ -35,7 +35,8 @@ def fast_interp_same_x(x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndar
         raise ValueError("xp must be 1-dimensional.")
     if fp.shape[1] != len(xp):
         raise ValueError("Dimension 1 of fp must be equal to length of xp.")
-    index = np.searchsorted(xp, x)
+    # where several xp equal x, interpolate from the last of them, as np.interp does
+    index = np.searchsorted(xp, x, side="right")
     result = np.empty((fp.shape[0], len(x)), dtype=np.float32)
     for row in prange(fp.shape[0]):
         for i, ind in enumerate(index):
@@ -88,15 +89,17 @@ def fast_interp_same_y(x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndar
             recalculate = False
             curr_x = x[j]
             # Find the indices of xp[i] to interpolate between. We need the
-            # smallest index ind of xp[i] for which xp[i, ind] >= curr_x.
+            # smallest index ind of xp[i] for which xp[i, ind] > curr_x, so that
+            # where several xp[i] equal curr_x the last of them is used, as
+            # np.interp does.
             if x_ordered:
                 # Since x and x[i] are non-decreasing, ind for current j must be
                 # greater than equal to ind for previous j.
-                while (ind < max_ind) and (xp[i, ind] < curr_x):
+                while (ind < max_ind) and (xp[i, ind] <= curr_x):
                     ind = ind + 1
                     recalculate = True
             else:
-                ind = np.searchsorted(xp[i], curr_x)
+                ind = np.searchsorted(xp[i], curr_x, side="right")
             # linear interpolation
             if ind == 0:
                 result[i, j] = min_val
-- 
2.43.0


From 783b8223038a36f7e12ccf145232289918ec18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 30/57] fix: decision tree expressions evaluate + and - from
 left to right

---
 improver/categorical/decision_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a3606a9..20e26fe 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -700,11 +700,11 @@ class ApplyDecisionTree(BasePlugin):
                         + [self.evaluate_extract_expression(cubes, item)]
                         + curr_expression[idx + 1 :]
                     )
-            # evaluate operators in order of precedence
-            for op_str in ["/", "*", "+", "-"]:
+            # evaluate operators in order of precedence, from left to right
+            for op_strs in [("/", "*"), ("+", "-")]:
                 while len(curr_expression) > 1:
                     for idx, item in enumerate(curr_expression):
-                        if isinstance(item, str) and (item == op_str):
+                        if isinstance(item, str) and item in op_strs:
                             left_arg = curr_expression[idx - 1]
                             right_arg = curr_expression[idx + 1]
                             if isinstance(left_arg, iris.Constraint):
@@ -715,7 +715,7 @@ class ApplyDecisionTree(BasePlugin):
                                 right_eval = cubes.extract(right_arg)[0].data
                             else:
                                 right_eval = right_arg
-                            op = operator_map[op_str]
+                            op = operator_map[item]
                             res = op(left_eval, right_eval)
                             curr_expression = (
                                 curr_expression[: idx - 1]
-- 
2.43.0


From 45c493a274b0bf10c7ac74421f980855cb18a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 31/57] fix: decision tree expressions of deterministic
 diagnostics

---
 improver/categorical/decision_tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 20e26fe..3e0fa84 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -398,13 +398,15 @@ class ApplyDecisionTree(BasePlugin):
                     if is_variable(item):
                         # Add a constraint from the variable name and threshold value
                         d_threshold_index += 1
-                        extract_constraint.append(
-                            self.construct_extract_constraint(
+                        if d_threshold:
+                            constraint = self.construct_extract_constraint(
                                 item,
                                 d_threshold[d_threshold_index],
                                 self.coord_named_threshold,
                             )
-                        )
+                        else:
+                            constraint = iris.Constraint(item)
+                        extract_constraint.append(constraint)
                     else:
                         # Add this operator or variable as-is
                         extract_constraint.append(item)
-- 
2.43.0


From 8d9026d026236a093d92740899885d5bd032d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 32/57] fix: accept decision tree nodes without a condition
 combination, as documented

---
 improver/categorical/decision_tree.py | 4 ++--
 improver/categorical/utilities.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 3e0fa84..a15d915 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -350,7 +350,7 @@ class ApplyDecisionTree(BasePlugin):
         """
         inverted_threshold = self._invert_comparator(condition["threshold_condition"])
         inverted_combination = self._invert_comparator(
-            condition["condition_combination"]
+            condition.get("condition_combination", "")
         )
         return inverted_threshold, inverted_combination
 
@@ -425,7 +425,7 @@ class ApplyDecisionTree(BasePlugin):
                     p_threshold,
                 ]
             )
-        condition_chain = [conditions, test_conditions["condition_combination"]]
+        condition_chain = [conditions, test_conditions.get("condition_combination", "")]
         return condition_chain
 
     def construct_extract_constraint(
diff --git a/improver/categorical/utilities.py b/improver/categorical/utilities.py
index 15f4add..39e0fbd 100644
--- a/improver/categorical/utilities.py
+++ b/improver/categorical/utilities.py
@@ -478,7 +478,7 @@ def check_tree(
 
             # Check that only permissible values are used in condition_combination
             # this will be AND / OR for multiple diagnostic fields, or blank otherwise
-            combination = decision_tree[node]["condition_combination"]
+            combination = items.get("condition_combination", "")
             num_diagnostics = len(decision_tree[node]["diagnostic_fields"])
             if num_diagnostics == 2 and combination not in CONDITION_COMBINATIONS:
                 issues.append(
-- 
2.43.0


From f96c25d92602c497e989705e7d8fd011e82abc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 33/57] fix: categorise every point where missing optional
 diagnostics make branches meet

---
 improver/categorical/decision_tree.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index a15d915..1606a41 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -843,20 +843,27 @@ class ApplyDecisionTree(BasePlugin):
                     current = copy.copy(self.queries[current_node])
                     next_node = route[i_node + 1]
 
+                    # No test is needed at a leaf, or where both branches lead to
+                    # the same node, e.g. around a missing optional diagnostic.
+                    if "leaf" in current or current["if_true"] == current["if_false"]:
+                        continue
+
                     if current.get("if_false") == next_node:
 
                         (
                             current["threshold_condition"],
                             current["condition_combination"],
                         ) = self.invert_condition(current)
-                    if "leaf" not in current.keys():
-                        conditions.append(self.create_condition_chain(current))
-                test_chain = [conditions, "AND"]
+                    conditions.append(self.create_condition_chain(current))
 
                 # Set grid locations to suitable category
-                categories.data[
-                    np.ma.where(self.evaluate_condition_chain(cubes, test_chain))
-                ] = category_code
+                if conditions:
+                    locations = self.evaluate_condition_chain(
+                        cubes, [conditions, "AND"]
+                    )
+                else:
+                    locations = np.ones(categories.shape, dtype=bool)
+                categories.data[np.ma.where(locations)] = category_code
 
         # Update categories for day or night where appropriate.
         categories = update_daynight(categories, day_night_map(self.queries))
-- 
2.43.0


From e29e5718679c8eccda4a9a47801f8a27151fb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 34/57] fix: leave the decision tree as it was after inputs
 lacking optional diagnostics

---
 improver/categorical/decision_tree.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/improver/categorical/decision_tree.py b/improver/categorical/decision_tree.py
index 1606a41..0db1792 100644
--- a/improver/categorical/decision_tree.py
+++ b/improver/categorical/decision_tree.py
@@ -170,6 +170,7 @@ class ApplyDecisionTree(BasePlugin):
 
         # Check that all cubes are valid at or over the same periods
         self.check_coincidence(cubes)
+        self.coord_named_threshold = False
 
         used_cubes = iris.cube.CubeList()
         optional_node_data_missing = []
@@ -812,10 +813,25 @@ class ApplyDecisionTree(BasePlugin):
         # are needed to speed up later cube extractions.
         cubes, optional_node_data_missing = self.prepare_input_cubes(*cubes)
 
-        # Reroute the decision tree around missing optional nodes
+        # Reroute the decision tree around missing optional nodes, leaving the
+        # tree of this plugin as it is for other inputs.
         if optional_node_data_missing is not None:
-            self.remove_optional_missing(optional_node_data_missing)
+            rerouted = copy.copy(self)
+            rerouted.queries = {k: copy.copy(v) for k, v in self.queries.items()}
+            rerouted.remove_optional_missing(optional_node_data_missing)
+            return rerouted._categorise(cubes)
+        return self._categorise(cubes)
+
+    def _categorise(self, cubes: CubeList) -> Cube:
+        """Follow the decision tree to give each location a category.
+
+        Args:
+            cubes:
+                The diagnostics needed by the decision tree.
 
+        Returns:
+            A cube of categorical data.
+        """
         # Construct graph nodes dictionary
         graph = {
             key: [self.queries[key]["leaf"]]
-- 
2.43.0


From 556e0e2caa59051fe2f08e2c0e3a9ce39d4d4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 35/57] fix: keep every valid pair when masks vary between
 times in reliability tables

---
 improver/calibration/reliability_calibration.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 586e861..753436a 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -357,8 +357,8 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
         self, forecast: ndarray, truth: MaskedArray
     ) -> MaskedArray:
         """
-        Support populating the reliability table bins with a masked truth. If a
-        masked truth is provided, a masked reliability table is returned.
+        Support populating the reliability table bins with a masked truth or
+        forecast. A masked reliability table is returned.
 
         Args:
             forecast:
@@ -386,8 +386,9 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
         self, forecast: Cube, truth: Cube, threshold_reliability: MaskedArray
     ) -> Union[MaskedArray, ndarray]:
         """
-        Add reliability tables. The presence of a masked truth is handled
-        separately to ensure support for a mask that changes with validity time.
+        Add reliability tables. The presence of a mask in the truth, the forecast
+        or the current table is handled separately to ensure support for a mask
+        that changes with validity time.
 
         Args:
             forecast:
@@ -407,7 +408,10 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
             dimensions of the forecast and truth cubes (which are
             equivalent).
         """
-        if np.ma.is_masked(truth.data):
+        if any(
+            np.ma.is_masked(data)
+            for data in (truth.data, forecast.data, threshold_reliability)
+        ):
             table = self._populate_masked_reliability_bins(forecast.data, truth.data)
             # Bitwise addition of masks. This ensures that only points that are
             # masked in both the existing and new reliability tables are kept
@@ -494,7 +498,7 @@ class ConstructReliabilityCalibrationTables(BasePlugin):
         )
 
         populate_bins_func = self._populate_reliability_bins
-        if np.ma.is_masked(truths.data):
+        if np.ma.is_masked(truths.data) or np.ma.is_masked(historic_forecasts.data):
             populate_bins_func = self._populate_masked_reliability_bins
 
         reliability_tables = iris.cube.CubeList()
-- 
2.43.0


From 60b061c88255d755af07ae94801a37949f90ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 36/57] fix: accept reliability tables of separate periods in
 any order

---
 improver/calibration/reliability_calibration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/improver/calibration/reliability_calibration.py b/improver/calibration/reliability_calibration.py
index 753436a..c898a71 100644
--- a/improver/calibration/reliability_calibration.py
+++ b/improver/calibration/reliability_calibration.py
@@ -557,12 +557,10 @@ class AggregateReliabilityCalibrationTables(BasePlugin):
         Raises:
             ValueError: If the bounds overlap.
         """
-        lower_bounds = []
-        upper_bounds = []
-        for cube in cubes:
-            lower_bounds.append(cube.coord("forecast_reference_time").bounds[0][0])
-            upper_bounds.append(cube.coord("forecast_reference_time").bounds[0][1])
-        if not all(x < y for x, y in zip(upper_bounds, lower_bounds[1:])):
+        bounds = sorted(
+            tuple(cube.coord("forecast_reference_time").bounds[0]) for cube in cubes
+        )
+        if not all(x[1] < y[0] for x, y in zip(bounds, bounds[1:])):
             raise ValueError(
                 "Reliability calibration tables have overlapping "
                 "forecast reference time bounds, indicating that "
-- 
2.43.0


From aabf4fc137bca0d8f29b4cf1f211fd0e9b5e3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 37/57] fix: pair multi-cycle forecasts and truths in the same
 order

---
 improver/calibration/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/improver/calibration/utilities.py b/improver/calibration/utilities.py
index 4cc019f..f629977 100644
--- a/improver/calibration/utilities.py
+++ b/improver/calibration/utilities.py
@@ -206,6 +206,9 @@ def filter_non_matching_cubes(
             and truth_slice.coord("time").cell(0) not in truth_times
         ):
             truth_times.append(truth_slice.coord("time").cell(0))
+            # Use time for ordering the forecasts, as for the truths, also if the
+            # time coordinate of the historic forecasts is multi-dimensional.
+            hf_slice.replace_coord(DimCoord.from_coord(hf_slice.coord("time")))
             matching_historic_forecasts.append(hf_slice)
             matching_truths.append(truth_slice)
     if not matching_historic_forecasts and not matching_truths:
-- 
2.43.0


From 6d313e9d39a5568eefae83bb746a99475394f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 38/57] fix: reject relabelling a dimension of several cycles
 to a given cycle, as documented

---
 improver/metadata/forecast_times.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/metadata/forecast_times.py b/improver/metadata/forecast_times.py
index f05c9ec..324a733 100644
--- a/improver/metadata/forecast_times.py
+++ b/improver/metadata/forecast_times.py
@@ -261,6 +261,12 @@ def unify_cycletime(
     Raises:
         ValueError: if forecast_reference_time is a dimension coordinate
     """
+    if any(cube.coord_dims("forecast_reference_time") for cube in cubes):
+        raise ValueError(
+            "Expecting scalar forecast_reference_time for each input "
+            "cube - cannot replace a dimension coordinate"
+        )
+
     result_cubes = iris.cube.CubeList([])
     for cube in cubes:
         cube = cube.copy()
-- 
2.43.0


From db93b1dca5f0881732df8df466d79d7a6442b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 39/57] fix: leave the order of the input's dimensions when
 roughness correction fails

---
 improver/wind_calculations/wind_downscaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/wind_calculations/wind_downscaling.py b/improver/wind_calculations/wind_downscaling.py
index 5a69a5f..8075aaa 100644
--- a/improver/wind_calculations/wind_downscaling.py
+++ b/improver/wind_calculations/wind_downscaling.py
@@ -913,6 +913,8 @@ class RoughnessCorrection(PostProcessingPlugin):
             input_cube
         )
         xwp, ywp, zwp, twp = self.find_coord_order(input_cube)
+        # reorder a copy, so that the input is as given if processing fails
+        input_cube = input_cube.copy()
         if np.isnan(twp):
             input_cube.transpose([ywp, xwp, zwp])
         else:
@@ -941,12 +943,10 @@ class RoughnessCorrection(PostProcessingPlugin):
             rc_hc.data = roughness_correction.do_rc_hc_all(hld, time_slice.data)
             rchc_list.append(rc_hc)
         output_cube = rchc_list.merge_cube()
-        # reorder input_cube and output_cube as original
+        # reorder output_cube as original
         if np.isnan(twp):
-            input_cube.transpose(np.argsort([ywp, xwp, zwp]))
             output_cube.transpose(np.argsort([ywp, xwp, zwp]))
         else:
-            input_cube.transpose(np.argsort([ywp, xwp, zwp, twp]))
             output_cube.transpose(np.argsort([twp, ywp, xwp, zwp]))
 
         return output_cube
-- 
2.43.0


From 43ac44cd690983a433993f46d326aedd8cbf0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 40/57] fix: name each combined cube after its own inputs

---
 improver/cube_combiner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6968ed8..a3bbc57 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -105,8 +105,7 @@ class Combine(BasePlugin):
         """
         cubes = as_cubelist(*cubes)
 
-        if self.new_name is None:
-            self.new_name = cubes[0].name()
+        new_name = cubes[0].name() if self.new_name is None else self.new_name
 
         if self.minimum_realizations is None:
             filtered_cubes = cubes
@@ -125,7 +124,7 @@ class Combine(BasePlugin):
                     f"({self.minimum_realizations})"
                 )
             filtered_cubes = cube.slices_over("time")
-        return self.plugin(CubeList(filtered_cubes), self.new_name)
+        return self.plugin(CubeList(filtered_cubes), new_name)
 
 
 def masked_add(
-- 
2.43.0


From 9749455b01d97d9efb2f3db5946f29d6e9860bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:05 +0000
Subject: [PATCH 41/57] fix: find the threshold to broadcast to anew for each
 set of inputs

---
 improver/cube_combiner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index a3bbc57..02861be 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -355,14 +355,15 @@ class CubeCombiner(BasePlugin):
         """
         target_cube = cube_list[0]
 
-        if self.broadcast == "threshold":
-            self.broadcast = find_threshold_coordinate(cube_list[0]).name()
+        broadcast = self.broadcast
+        if broadcast == "threshold":
+            broadcast = find_threshold_coordinate(cube_list[0]).name()
 
         try:
-            target_coord = target_cube.coord(self.broadcast)
+            target_coord = target_cube.coord(broadcast)
         except CoordinateNotFoundError:
             raise CoordinateNotFoundError(
-                f"Cannot find coord {self.broadcast} in {repr(target_cube)} to broadcast to"
+                f"Cannot find coord {broadcast} in {repr(target_cube)} to broadcast to"
             )
 
         new_list = CubeList([])
-- 
2.43.0


From dc03affc8baee5723f4cd0adb03e18965dce01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 42/57] fix: combine forecasts in the order given when members
 are too few to merge

---
 improver/cube_combiner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 02861be..404c5dd 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -123,7 +123,12 @@ class Combine(BasePlugin):
                     "is less than the minimum number of realizations allowed "
                     f"({self.minimum_realizations})"
                 )
-            filtered_cubes = cube.slices_over("time")
+            # merging sorts the times, so restore the order of the inputs
+            times = [c.point for cube in cubes for c in cube.coord("time").cells()]
+            filtered_cubes = sorted(
+                cube.slices_over("time"),
+                key=lambda c: times.index(c.coord("time").cell(0).point),
+            )
         return self.plugin(CubeList(filtered_cubes), new_name)
 
 
-- 
2.43.0


From 0c12dad118ae24c2274020edbc429018f2eda71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 43/57] fix: add masked fields whose masks need broadcasting

---
 improver/cube_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 404c5dd..6ef9b27 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -151,7 +151,7 @@ def masked_add(
     new_array_1 = np.ma.filled(masked_array, 0)
     new_array_2 = np.ma.filled(masked_array_2, 0)
 
-    new_mask = np.ma.getmask(masked_array) * np.ma.getmask(masked_array_2)
+    new_mask = np.ma.getmaskarray(masked_array) * np.ma.getmaskarray(masked_array_2)
 
     summed_cube = np.ma.MaskedArray(np.add(new_array_1, new_array_2), mask=new_mask)
 
-- 
2.43.0


From 3234f498ed0c342391d41d09414e6a5f242636f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 44/57] fix: reject cubes with differing numbers of dimensions
 in cube combining

---
 improver/cube_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 6ef9b27..07cf836 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -233,7 +233,7 @@ class CubeCombiner(BasePlugin):
                 np.any([comp(a, b) for comp in comparators])
                 for a, b in zip(coords, ref_coords)
             ]
-            if not np.all(compare):
+            if len(coords) != len(ref_coords) or not np.all(compare):
                 msg = (
                     "Cannot combine cubes with different dimensions:\n"
                     "{} and {}".format(repr(cube_list[0]), repr(cube))
-- 
2.43.0


From e141e917e5a129ae78b37611300121d5fc20f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 45/57] fix: keep the name of probabilities multiplied without
 renaming

---
 improver/cube_combiner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/improver/cube_combiner.py b/improver/cube_combiner.py
index 07cf836..cd7f177 100644
--- a/improver/cube_combiner.py
+++ b/improver/cube_combiner.py
@@ -444,7 +444,8 @@ class CubeCombiner(BasePlugin):
         expanded_coord_names = self._get_expanded_coord_names(cube_list)
 
         if self.operation in ["*", "multiply"]:
-            update_diagnostic_name(cube_list[0], new_diagnostic_name, result)
+            if new_diagnostic_name != cube_list[0].name():
+                update_diagnostic_name(cube_list[0], new_diagnostic_name, result)
         else:
             if expanded_coord_names and self.expand_bound:
                 result = expand_bounds(result, cube_list, expanded_coord_names)
-- 
2.43.0


From a33fb275eb33894b1d269ae42ecc7faba6ece7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 46/57] fix: reject a second land-sea mask or forecast instead
 of keeping the last

---
 improver/calibration/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/improver/calibration/__init__.py b/improver/calibration/__init__.py
index d85ee1c..75d84b9 100644
--- a/improver/calibration/__init__.py
+++ b/improver/calibration/__init__.py
@@ -132,6 +132,12 @@ def split_forecasts_and_coeffs(
             if "emos_coefficient" in cube.name():
                 coefficients.append(cube)
             elif land_sea_mask_name and cube.name() == land_sea_mask_name:
+                if land_sea_mask is not None:
+                    msg = (
+                        "Multiple items have been provided with the "
+                        f"name {cube.name()}. Only one item is expected."
+                    )
+                    raise ValueError(msg)
                 land_sea_mask = cube
             elif "time" not in [c.name() for c in cube.coords()]:
                 static_additional_predictors.append(cube)
@@ -163,12 +169,18 @@ def split_forecasts_and_coeffs(
         raise ValueError(msg)
     elif len(grouped_cubes) == 1:
         (current_forecast,) = list(grouped_cubes.values())[0]
-    elif len(grouped_cubes) == 2:
+    elif len(grouped_cubes) == 2 and any("probability" in k for k in grouped_cubes):
         for key in grouped_cubes.keys():
             if "probability" in key:
                 (prob_template,) = grouped_cubes[key]
             else:
                 (current_forecast,) = grouped_cubes[key]
+    else:
+        msg = (
+            "Only one forecast and, optionally, one probability template are "
+            f"expected. Cubes provided: {list(grouped_cubes.keys())}."
+        )
+        raise ValueError(msg)
 
     coefficients = coefficients if coefficients else None
     static_additional_predictors = (
-- 
2.43.0


From 1f096bd479b62c6d0f2f0388011f7bb11ffc0bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 47/57] fix: reject inputs that are missing or given twice
 rather than misassign them

---
 improver/precipitation_type/hail_fraction.py                 | 2 +-
 .../psychrometric_calculations/cloud_condensation_level.py   | 4 ++--
 improver/psychrometric_calculations/hail_size.py             | 2 +-
 improver/wind_calculations/vertical_updraught.py             | 5 +++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/improver/precipitation_type/hail_fraction.py b/improver/precipitation_type/hail_fraction.py
index 308eb40..e42cc59 100644
--- a/improver/precipitation_type/hail_fraction.py
+++ b/improver/precipitation_type/hail_fraction.py
@@ -118,7 +118,7 @@ class HailFraction(PostProcessingPlugin):
             convective_cloud_top,
             hail_melting_level,
             orography,
-        ) = cubes.extract(
+        ) = cubes.extract_cubes(
             [
                 "maximum_vertical_updraught",
                 "diameter_of_hail_stones",
diff --git a/improver/psychrometric_calculations/cloud_condensation_level.py b/improver/psychrometric_calculations/cloud_condensation_level.py
index 2881d11..ced4eac 100644
--- a/improver/psychrometric_calculations/cloud_condensation_level.py
+++ b/improver/psychrometric_calculations/cloud_condensation_level.py
@@ -151,8 +151,8 @@ class CloudCondensationLevel(PostProcessingPlugin):
             air_pressure_at_cloud_condensation_level
 
         """
-        cubes = as_cubelist(cubes)
-        (self.temperature, self.pressure, self.humidity) = CubeList(cubes).extract(
+        cubes = CubeList(as_cubelist(cubes))
+        (self.temperature, self.pressure, self.humidity) = cubes.extract_cubes(
             ["air_temperature", "surface_air_pressure", "humidity_mixing_ratio"]
         )
         ccl_pressure, ccl_temperature = self._iterate_to_ccl()
diff --git a/improver/psychrometric_calculations/hail_size.py b/improver/psychrometric_calculations/hail_size.py
index 16dcf2f..99e27ac 100644
--- a/improver/psychrometric_calculations/hail_size.py
+++ b/improver/psychrometric_calculations/hail_size.py
@@ -493,7 +493,7 @@ class HailSize(BasePlugin):
             ccl_temperature,
             wet_bulb_zero_height_asl,
             orography,
-        ) = cubes.extract(
+        ) = cubes.extract_cubes(
             [
                 "air_temperature",
                 "air_pressure_at_condensation_level",
diff --git a/improver/wind_calculations/vertical_updraught.py b/improver/wind_calculations/vertical_updraught.py
index b55f3e0..b64837e 100644
--- a/improver/wind_calculations/vertical_updraught.py
+++ b/improver/wind_calculations/vertical_updraught.py
@@ -8,6 +8,7 @@ from typing import Union
 
 import numpy as np
 from iris.cube import Cube, CubeList
+from iris.exceptions import ConstraintMismatchError
 
 from improver import BasePlugin
 from improver.metadata.utilities import (
@@ -61,8 +62,8 @@ class VerticalUpdraught(BasePlugin):
                 If additional cubes are found
         """
         try:
-            (self.cape, self.precip) = cubes.extract(self.cube_names)
-        except ValueError as e:
+            (self.cape, self.precip) = cubes.extract_cubes(self.cube_names)
+        except ConstraintMismatchError as e:
             raise ValueError(
                 f"Expected to find cubes of {self.cube_names}, not {[c.name() for c in cubes]}"
             ) from e
-- 
2.43.0


From 546a9ce47577baf5154f50fcab5aaa6d5eafbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 48/57] fix: leave cycles without weight out of the blend

---
 improver/blending/calculate_weights_and_blend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 5272323..11a68ea 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -192,13 +192,13 @@ class WeightAndBlend(PostProcessingPlugin):
         slice_out_vals = []
         for wslice in weights.slices_over(self.blend_coord):
             if np.sum(wslice.data) == 0:
-                slice_out_vals.append(wslice.coord(self.blend_coord).points[0])
+                slice_out_vals.append(wslice.coord(self.blend_coord).cell(0).point)
 
         if not slice_out_vals:
             return cube, weights
 
         constraint = iris.Constraint(
-            coord_values={self.blend_coord: lambda x: x not in slice_out_vals}
+            coord_values={self.blend_coord: lambda x: x.point not in slice_out_vals}
         )
         cube = cube.extract(constraint)
         weights = weights.extract(constraint)
-- 
2.43.0


From b0ee7a0eefb7af629c6ce7a2809d90b7783f438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 49/57] fix: apply blending weights in order to a cube merged
 in descending order

---
 improver/blending/calculate_weights_and_blend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/improver/blending/calculate_weights_and_blend.py b/improver/blending/calculate_weights_and_blend.py
index 11a68ea..9aa9529 100644
--- a/improver/blending/calculate_weights_and_blend.py
+++ b/improver/blending/calculate_weights_and_blend.py
@@ -30,6 +30,7 @@ from improver.blending.weights import (
     ChooseDefaultWeightsNonLinear,
     ChooseWeightsLinear,
 )
+from improver.utilities.cube_manipulation import sort_coord_in_cube
 from improver.utilities.spatial import (
     check_if_grid_is_equal_area,
     distance_to_number_of_grid_cells,
@@ -287,6 +288,10 @@ class WeightAndBlend(PostProcessingPlugin):
         if "model" in self.blend_coord:
             self.blend_coord = copy(MODEL_BLEND_COORD)
 
+        # A cube given ready merged may have a descending blend coordinate.
+        if cube.coords(self.blend_coord, dim_coords=True):
+            cube = sort_coord_in_cube(cube, self.blend_coord)
+
         # Record coordinates associated with the blend coord that will be removed
         # later once the blend coord has been collapsed.
         coords_to_remove = get_coords_to_remove(cube, self.blend_coord)
-- 
2.43.0


From 313fc168767149104ec85e10774bb3bc0e5a7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 50/57] fix: leave points without any input masked when
 blending percentiles

---
 improver/blending/weighted_blend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d3c8c06..d268c08 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -305,6 +305,10 @@ class PercentileBlendingAggregator:
         # Reshape the data with a leading percentile dimension
         shape = percentiles.shape + grid_shape
         result = result.reshape(shape)
+        # Points at which every input is masked have no blended value
+        if np.ma.is_masked(data):
+            no_data = np.ma.getmaskarray(data).all(axis=0).reshape(shape)
+            result = np.ma.masked_array(result, mask=no_data)
         return result
 
     @staticmethod
-- 
2.43.0


From 8917d0f5b0ebbbe8cd442e408af32f9315fc960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 51/57] fix: keep inputs without weight out of blended
 percentiles

---
 improver/blending/weighted_blend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index d268c08..ac0373a 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -333,6 +333,12 @@ class PercentileBlendingAggregator:
             Array containing the weighted percentile blend data
             across the chosen coord
         """
+        # Inputs that carry no weight must not contribute threshold values
+        contributing = weights > 0
+        if contributing.any():
+            perc_values = perc_values[contributing]
+            weights = weights[contributing]
+
         inputs_to_blend = perc_values.shape[0]
         combined_cdf = np.zeros((inputs_to_blend, len(percentiles)), dtype=FLOAT_DTYPE)
 
-- 
2.43.0


From 1ec35903fbe7b90520d598ded7962df8ba9d87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 52/57] fix: keep the direction of descending coordinates when
 blending

---
 improver/blending/weighted_blend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/improver/blending/weighted_blend.py b/improver/blending/weighted_blend.py
index ac0373a..d4a74b0 100644
--- a/improver/blending/weighted_blend.py
+++ b/improver/blending/weighted_blend.py
@@ -666,6 +666,12 @@ class WeightedBlendAcrossWholeDimension(PostProcessingPlugin):
 
         result = result_slices.merge_cube() if allow_slicing else result_slices[0]
 
+        # merging sorts the coordinate sliced over, so restore its direction
+        if allow_slicing:
+            for coord in cube.coords(dimensions=slice_dim, dim_coords=True):
+                if coord.points[0] > coord.points[-1]:
+                    result = sort_coord_in_cube(result, coord.name(), descending=True)
+
         # If units are degrees, convert complex numbers back to degrees.
         if cube.units == "degrees":
             result.data = complex_to_deg(result.data)
-- 
2.43.0


From 30e5ac6b70dcee459d63aa9f781eeb2ce7817792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 53/57] fix: record the run of every cycle of a merged cube

---
 improver/blending/utilities.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/improver/blending/utilities.py b/improver/blending/utilities.py
index 196e9fc..725292b 100644
--- a/improver/blending/utilities.py
+++ b/improver/blending/utilities.py
@@ -305,19 +305,17 @@ def store_record_run_as_coord(
                 f"Cube attributes: {cube.attributes}"
             )
 
-        cycle = datetime.utcfromtimestamp(
-            cube.coord("forecast_reference_time").points[0]
-        )
-        cycle_str = cycle.strftime(DT_FORMAT)
-
         blending_weight = 1
-        run_attr = (
-            f"{cube.attributes[model_id_attr]}:{cycle_str}:"
-            f"{blending_weight:{WEIGHT_FORMAT}}"
-        )
+        run_attrs = []
+        for cycle_point in cube.coord("forecast_reference_time").points:
+            cycle_str = datetime.utcfromtimestamp(cycle_point).strftime(DT_FORMAT)
+            run_attrs.append(
+                f"{cube.attributes[model_id_attr]}:{cycle_str}:"
+                f"{blending_weight:{WEIGHT_FORMAT}}"
+            )
 
-        record_coord = AuxCoord([run_attr], long_name=RECORD_COORD)
-        cube.add_aux_coord(record_coord)
+        record_coord = AuxCoord(run_attrs, long_name=RECORD_COORD)
+        cube.add_aux_coord(record_coord, cube.coord_dims("forecast_reference_time"))
 
 
 def record_run_coord_to_attr(
-- 
2.43.0


From c7bd359323ea3585e6c77ea1fb92ad168ebb46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 54/57] fix: reject masks that vary between members whichever
 member is masked

---
 improver/blending/spatial_weights.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/improver/blending/spatial_weights.py b/improver/blending/spatial_weights.py
index 4aaafff..022e189 100644
--- a/improver/blending/spatial_weights.py
+++ b/improver/blending/spatial_weights.py
@@ -100,10 +100,10 @@ class SpatiallyVaryingWeightsFromMask(BasePlugin):
         # Check mask does not vary over additional dimensions
         slices = cube_to_collapse.slices(coords_to_slice_over)
         first_slice = next(slices)
-        if np.ma.is_masked(first_slice.data):
-            first_mask = first_slice.data.mask
+        if np.ma.is_masked(cube_to_collapse.data):
+            first_mask = np.ma.getmaskarray(first_slice.data)
             for cube_slice in slices:
-                if not np.all(cube_slice.data.mask == first_mask):
+                if not np.all(np.ma.getmaskarray(cube_slice.data) == first_mask):
                     message = (
                         "The mask on the input cube can only vary along the "
                         "blend_coord, differences in the mask were found "
-- 
2.43.0


From 19adc12890284fe0a0b7b3bc115c0a2888789501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 55/57] fix: save cubes of differing numbers of dimensions or
 grid sizes together

---
 improver/utilities/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/improver/utilities/save.py b/improver/utilities/save.py
index 8a586b1..fe66f7d 100644
--- a/improver/utilities/save.py
+++ b/improver/utilities/save.py
@@ -100,7 +100,7 @@ def save_netcdf(
     # If all xy slices are the same shape, use this to determine
     # the chunksize for the netCDF (eg. 1, 1, 970, 1042)
     chunksizes = None
-    if len({cube.shape[:2] for cube in cubelist}) == 1:
+    if len({(cube.ndim, cube.shape[-2:]) for cube in cubelist}) == 1:
         cube = cubelist[0]
         if cube.ndim >= 2:
             xy_chunksizes = [cube.shape[-2], cube.shape[-1]]
-- 
2.43.0


From b72b4edf281d37544b12d9992745e57b34ab142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 56/57] fix: recognise every threshold coordinate of a file
 with several probability cubes

---
 improver/utilities/cube_manipulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/improver/utilities/cube_manipulation.py b/improver/utilities/cube_manipulation.py
index 5b65724..39a13d1 100644
--- a/improver/utilities/cube_manipulation.py
+++ b/improver/utilities/cube_manipulation.py
@@ -4,6 +4,7 @@
 # See LICENSE in the root of the repository for full licensing details.
 """ Provides support utilities for cube manipulation."""
 
+import re
 import warnings
 from typing import Any, Dict, List, Optional, Union
 
@@ -139,8 +140,11 @@ def strip_var_names(cubes: Union[Cube, CubeList]) -> CubeList:
     for cube in cubes:
         cube.var_name = None
         for coord in cube.coords():
-            # retain var name required for threshold coordinate
-            if coord.var_name != "threshold":
+            # retain var name required for threshold coordinate; this has a
+            # numerical suffix where it was not unique in a file
+            if re.fullmatch(r"threshold(_\d+)?", coord.var_name or ""):
+                coord.var_name = "threshold"
+            else:
                 coord.var_name = None
     return cubes
 
-- 
2.43.0


From 364fc1e5c70f0116811c45a26828d2272f6fd9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 57/57] fix: leave the order of the dimensions of the orography
 and mask when smoothing coefficients fail

---
 .../generate_orographic_smoothing_coefficients.py            | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
index 904f74a..6221cfd 100644
--- a/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
+++ b/improver/generate_ancillaries/generate_orographic_smoothing_coefficients.py
@@ -293,7 +293,9 @@ class OrographicSmoothingCoefficients(BasePlugin):
                 "orography field."
             )
 
-        # Enforce coordinate order for simpler processing.
+        # Enforce coordinate order for simpler processing, on copies as the
+        # inputs are left as they are.
+        cube = cube.copy()
         original_order = [crd.name() for crd in cube.coords(dim_coords=True)]
         target_order = [cube.coord(axis="y").name(), cube.coord(axis="x").name()]
         enforce_coordinate_ordering(cube, target_order)
@@ -321,6 +323,7 @@ class OrographicSmoothingCoefficients(BasePlugin):
 
         # If a mask has been provided, zero coefficients where required.
         if mask is not None:
+            mask = mask.copy()
             enforce_coordinate_ordering(mask, target_order)
             self.zero_masked(*smoothing_coefficients, mask)
 
-- 
2.43.0

