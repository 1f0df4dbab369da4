From 9ed41d50e0232e59d00fe98c9781fb6a18a3f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 01/17] fix: do not modify the caller's remapping in reclassify

---
 raster_tools/general.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/general.py b/raster_tools/general.py
index a9d6e95..dbfdb2d 100644
--- a/raster_tools/general.py
+++ b/raster_tools/general.py
@@ -1376,6 +1376,8 @@ def reclassify(raster, remapping, unmapped_to_null=False):
     else:
         nv = get_default_null_value(out_dtype)
     masked = raster._masked or unmapped_to_null
+    # Copy so that the caller's dict is left untouched
+    remapping = dict(remapping)
     for k in remapping:
         if remapping[k] is None:
             remapping[k] = nv
-- 
2.43.0


From 2f09e6f364210f809438f5a94a7518328f43300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 02/17] fix: do not modify the caller's xarray_kwargs in
 open_dataset

---
 raster_tools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/io.py b/raster_tools/io.py
index 6a29ded..9cf0250 100644
--- a/raster_tools/io.py
+++ b/raster_tools/io.py
@@ -577,7 +577,7 @@ def open_dataset(
     """
     if xarray_kwargs is None:
         xarray_kwargs = {}
-    xarray_kwargs["decode_coords"] = "all"
+    xarray_kwargs = {**xarray_kwargs, "decode_coords": "all"}
     ext = _get_extension(path)
     if ext in NC_EXTS:
         _require_backend("netCDF4", "netcdf4", ext, extra="io")
-- 
2.43.0


From 5d887233e6aa7a109daca0ab43b1abb1a29252fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 03/17] fix: do not set mock spatial partitions on the caller's
 features in rasterize

---
 raster_tools/rasterize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raster_tools/rasterize.py b/raster_tools/rasterize.py
index 7c763c4..67ca149 100644
--- a/raster_tools/rasterize.py
+++ b/raster_tools/rasterize.py
@@ -520,6 +520,8 @@ def _rasterize_spatial_naive(
     nparts = df.npartitions
     like_bbox = shapely.geometry.box(*like.bounds)
     sparts = gpd.GeoSeries([like_bbox for i in range(nparts)], crs=like.crs)
+    # Copy so that the mock partitions are not left on the caller's dataframe
+    df = df.copy()
     df.spatial_partitions = sparts
     return _rasterize_spatial_aware(
         df,
-- 
2.43.0


From d81e59d681363383e4f0f88cdc5921365a8091ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 04/17] fix: do not write into the input blocks in to_polygons

---
 raster_tools/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index 86d0845..ec22fed 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -3136,7 +3136,8 @@ def _shapes_delayed(chunk, mask, neighbors, transform, band, crs):
         # values are the most likely to produce warnings when down casting. The
         # null cells will be ignored in rio.features.shapes so the value
         # does not matter for computation.
-        chunk[mask] = 0
+        # Copy because the chunk may be shared with other dask tasks.
+        chunk = np.where(mask, chunk.dtype.type(0), chunk)
         chunk = chunk.astype(working_dtype)
 
     # Invert because rasterio's shapes func uses False for masked cells.
-- 
2.43.0


From 7facb08951f26bddba0dc5e93a1791bc502ee921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 05/17] fix: add the 64-bit integers to
 INT_DTYPE_TO_FLOAT_DTYPE

---
 raster_tools/dtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raster_tools/dtypes.py b/raster_tools/dtypes.py
index ffbfaa2..f7abc89 100644
--- a/raster_tools/dtypes.py
+++ b/raster_tools/dtypes.py
@@ -194,5 +194,6 @@ INT_DTYPE_TO_FLOAT_DTYPE = {
     I8: F16,
     I16: F32,
     I32: F64,
-    F64: F64,
+    U64: F64,
+    I64: F64,
 }
-- 
2.43.0


From 8b4012aa06a52d065de5a7993b6d87124b31096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 06/17] fix: honor weighting_field when the field is not named
 weights

---
 raster_tools/line_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 1b4a711..80d271e 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -187,7 +187,7 @@ def _length(gdf, xc, yc, radius, field=None, dtype=F32):
         gdf = gdf[cols]
         if field is not None:
             # Use field as weights
-            gdf = gdf.rename({field: "weights"})
+            gdf = gdf.rename(columns={field: "weights"})
             if is_bool(gdf.weights.dtype):
                 gdf = gdf.astype({"weights": I8})
 
-- 
2.43.0


From 8c128605c9344aeae42bb7b1f4811355887b2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 07/17] fix: make focal honor ignore_null

---
 raster_tools/focal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index bf14313..ef03806 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -420,7 +420,9 @@ def focal(raster, focal_type, width_or_radius, height=None, ignore_null=False):
     if raster._masked:
         nv = np.nan
         mask = raster.mask.copy()
-        mask = mask if ignore_null else mask | np.isnan(data)
+        # With ignore_null, null cells are filled in from their neighborhood
+        # so only the cells with no valid neighbors are null.
+        mask = np.isnan(data) if ignore_null else mask | np.isnan(data)
         ds = data_to_xr_raster_ds_like(
             data, raster.xdata, mask=mask, nv=nv, burn=True
         )
-- 
2.43.0


From bdf54b5b8227cbce0856dbde20da642a38822a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 08/17] fix: keep null cells out of surface analyses of 8-bit
 and float16 rasters

---
 raster_tools/surface.py | 50 +++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/raster_tools/surface.py b/raster_tools/surface.py
index 80ab109..5560111 100644
--- a/raster_tools/surface.py
+++ b/raster_tools/surface.py
@@ -10,7 +10,15 @@ import numba as nb
 import numpy as np
 
 from raster_tools import focal
-from raster_tools.dtypes import F32, F64, I32, U8, is_int
+from raster_tools.dtypes import (
+    F16,
+    F32,
+    F64,
+    I32,
+    U8,
+    is_int,
+    promote_dtype_to_float,
+)
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_xr_raster_ds_like, get_raster
 from raster_tools.utils import single_band_mappable
@@ -30,6 +38,18 @@ RADIANS_TO_DEGREES = 180 / np.pi
 DEGREES_TO_RADIANS = np.pi / 180
 
 
+def _get_nan_raster(raster):
+    raster = get_raster(raster)
+    # Numba doesn't support float16. Widen before replacing the nulls with NaN.
+    # Casting afterwards would burn the null value back in over the NaNs.
+    will_be_f16 = raster._masked and (
+        promote_dtype_to_float(raster.dtype) == F16
+    )
+    if raster.dtype == F16 or will_be_f16:
+        raster = raster.astype(F32)
+    return get_raster(raster, null_to_nan=True)
+
+
 def _finalize(data, like):
     # Invalidate edges
     mask = like.mask.copy()
@@ -122,9 +142,7 @@ def surface_area_3d(raster):
     * `Jense, 2004 <https://www.fs.usda.gov/treesearch/pubs/20437>`_
 
     """
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster)
     out_data = raster.data.map_overlap(
         _surface_area_3d,
         depth={0: 0, 1: 1, 2: 1},
@@ -190,9 +208,7 @@ def slope(raster, degrees=True):
     * `ESRI slope <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-slope-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster)
     # Leave resolution sign as is
     out_data = raster.data.map_overlap(
         _slope,
@@ -264,9 +280,7 @@ def aspect(raster):
     * `ESRI aspect <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-aspect-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster)
     out_data = raster.data.map_overlap(
         _aspect,
         depth={0: 0, 1: 1, 2: 1},
@@ -323,9 +337,7 @@ def curvature(raster):
     * `ESRI curvature <https://pro.arcgis.com/en/pro-app/latest/tool-reference/3d-analyst/how-curvature-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster)
     out_data = raster.data.map_overlap(
         _curv,
         depth={0: 0, 1: 1, 2: 1},
@@ -371,9 +383,7 @@ def northing(raster, is_aspect=False):
     """
     if not is_aspect:
         raster = aspect(raster)
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster).copy()
     return _northing_easting(raster, True)
 
 
@@ -400,9 +410,7 @@ def easting(raster, is_aspect=False):
     if not is_aspect:
         raster = aspect(raster)
 
-    raster = get_raster(raster, null_to_nan=True).copy()
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster).copy()
     return _northing_easting(raster, False)
 
 
@@ -479,9 +487,7 @@ def hillshade(raster, azimuth=315, altitude=45):
     * `ESRI hillshade <https://pro.arcgis.com/en/pro-app/latest/tool-reference/spatial-analyst/how-hillshade-works.htm>`_
 
     """  # noqa: E501
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == np.dtype("float16"):
-        raster = raster.astype(F32)
+    raster = _get_nan_raster(raster)
     # Specifically leave resolution sign as is
     out_data = raster.data.map_overlap(
         _hillshade,
-- 
2.43.0


From 0c2dad2c9a578345c637f4f6bdc18a4d1b30edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 09/17] fix: keep null cells and the padding from acting as
 proximity sources

---
 raster_tools/distance/proximity.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 215fa09..eea1463 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -2,7 +2,7 @@ import dask.array as da
 import numba as nb
 import numpy as np
 
-from raster_tools.dtypes import F16, F32, F64
+from raster_tools.dtypes import F16, F32, F64, promote_dtype_to_float
 from raster_tools.masking import get_default_null_value
 from raster_tools.raster import Raster, data_to_raster_like, get_raster
 from raster_tools.utils import single_band_mappable
@@ -595,11 +595,16 @@ def _proximity_analysis(
         out_dtype = raster.dtype
     nodata = get_default_null_value(out_dtype)
     orig_raster_dtype = raster.dtype
-    # If masked, convert to float and replace null values with nan
-    raster = get_raster(raster, null_to_nan=True)
-    if raster.dtype == F16:
+    # Convert to float so that the nulls, and the padding beyond the edges of
+    # the raster, can be NaN. This has to be done before the nulls are replaced
+    # because casting burns the null value back in.
+    float_dtype = promote_dtype_to_float(orig_raster_dtype)
+    if float_dtype == F16:
         # Numba doesn't support float16
-        raster = raster.astype(F32)
+        float_dtype = F32
+    if float_dtype != raster.dtype:
+        raster = raster.astype(float_dtype)
+    raster = get_raster(raster, null_to_nan=True)
 
     out_data = da.map_overlap(
         _proximity_analysis_chunk,
-- 
2.43.0


From 4770624d393350862ff19deb9c346f21b838ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 10/17] fix: make the batch ARITHMETIC function work

---
 raster_tools/batch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 43e4e6d..23c0539 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -1,3 +1,4 @@
+import operator
 import os
 import re
 
@@ -46,6 +47,14 @@ _ESRI_OP_TO_OP = {
     "esriRasterPower": "**",
     "**": "**",
 }
+_OP_TO_FUNC = {
+    "+": operator.add,
+    "-": operator.sub,
+    "*": operator.mul,
+    "/": operator.truediv,
+    "%": operator.mod,
+    "**": operator.pow,
+}
 _FUNC_PATTERN = re.compile(r"^(?P<func>[A-Za-z]+)\((?P<args>[^\(\)]+)\)$")
 
 
@@ -70,7 +79,6 @@ class _BatchScripParserState:
 
 def _batch_parse_arithmetic(state, args_str, line_no):
     left_arg, right_arg, op = _split_strip(args_str, ";")
-    op = _ESRI_OP_TO_OP[op]
     if op not in _ESRI_OP_TO_OP:
         _batch_error(f"Unknown arithmetic operation {repr(op)}", line_no)
     op = _ESRI_OP_TO_OP[op]
@@ -82,7 +90,7 @@ def _batch_parse_arithmetic(state, args_str, line_no):
         right = float(right_arg)
     except ValueError:
         right = state.get_raster(right_arg)
-    return left._binary_arithmetic(right, op)
+    return _OP_TO_FUNC[op](left, right)
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-- 
2.43.0


From 268b01b9d385945296a43acd3c731d5a0f3fbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 11/17] fix: pass valid arguments from the batch functions to
 the raster API

---
 raster_tools/batch.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/raster_tools/batch.py b/raster_tools/batch.py
index 23c0539..4e8bbf7 100644
--- a/raster_tools/batch.py
+++ b/raster_tools/batch.py
@@ -94,9 +94,10 @@ def _batch_parse_arithmetic(state, args_str, line_no):
 
 
 def _batch_parse_extract_band(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    name, *args = _split_strip(args_str, ";")
+    rs = state.get_raster(name)
     bands = []
-    for sb in args_str:
+    for sb in args:
         try:
             b = _parse_user_number(sb)
             if not is_int(b):
@@ -141,18 +142,14 @@ def _batch_parse_remap(state, args_str, line_no):
         remaps.append((left, right, new))
     if len(remaps) == 0:
         _batch_error("REMAP Error: No remap values found", line_no)
-    args = []
-    for group in remaps:
-        args.extend(group)
-    return state.get_raster(raster).remap_range(*args)
+    return state.get_raster(raster).remap_range(remaps)
 
 
 def _batch_parse_composite(state, args_str, line_no):
-    on_line = f" on line {line_no}"
     rasters = [state.get_raster(path) for path in _split_strip(args_str, ";")]
     if len(rasters) < 2:
         _batch_error(
-            "COMPOSITE Error: at least 2 rasters are required", on_line
+            "COMPOSITE Error: at least 2 rasters are required", line_no
         )
     return stack_bands(rasters)
 
@@ -201,21 +198,22 @@ def _batch_parse_save(state, args_str, line_no):
 
 
 def _batch_parse_set_null(state, args_str, line_no):
-    rs = state.get_raster(args_str.pop(0))
+    name, *args = _split_strip(args_str, ";")
+    rs = state.get_raster(name)
     if not rs._masked:
-        rs.set_null_value(get_default_null_value(rs.dtype))
-    sranges = [_split_strip(r, "-") for r in args_str]
+        rs = rs.set_null_value(get_default_null_value(rs.dtype))
+    sranges = [_split_strip(r, "-") for r in args]
     ranges = []
     try:
         for sr in sranges:
             lh = _parse_user_number(sr[0])
             rh = _parse_user_number(sr[1])
-            ranges.extend((lh, rh, rs.null_value))
+            ranges.append((lh, rh, rs.null_value))
     except ValueError:
         _batch_error("Error parsing range value", line_no)
     except TypeError:
         _batch_error("Range bounds must be numbers", line_no)
-    return rs.remap_range(*ranges).set_null_value(rs.null_value)
+    return rs.remap_range(ranges).set_null_value(rs.null_value)
 
 
 _FUNC_TO_PARSER = {
-- 
2.43.0


From cb242aab029895e403136892da3e680abb20cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 12/17] fix: do not ignore a new null value close to the old
 one in astype

---
 raster_tools/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index ec22fed..ffdcb6e 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -1906,8 +1906,8 @@ class Raster(_RasterBase):
 
         xrs_casted = xrs.astype(dtype)
         if new_null_value is not None:
-            if self._masked and not np.allclose(
-                new_null_value, self.null_value, equal_nan=True
+            if self._masked and not null_values_equal(
+                self.null_value, new_null_value
             ):
                 with warnings.catch_warnings():
                     warnings.simplefilter("error")
-- 
2.43.0


From e2e1028b992f1456d23bd733c4b4a1c783d90c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 13/17] fix: check the type of y in data_to_xr_raster

---
 raster_tools/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raster_tools/raster.py b/raster_tools/raster.py
index ffdcb6e..b434fb0 100644
--- a/raster_tools/raster.py
+++ b/raster_tools/raster.py
@@ -744,7 +744,7 @@ def data_to_xr_raster(data, x=None, y=None, affine=None, crs=None, nv=None):
             y = np.arange(data.shape[1])[::-1] + 0.5
         elif any(xi is None for xi in (x, y)):
             raise ValueError("Must specify both x and y or neither.")
-        if not isinstance(x, np.ndarray) or not isinstance(x, np.ndarray):
+        if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
             raise TypeError("x and y must be numpy arrays")
         x = x.ravel()
         y = y.ravel()
-- 
2.43.0


From c237cd3f3a4aad5d435e065fa7e8af330a767eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 14/17] fix: do not pass float16 data to the focal and
 correlate kernels

---
 raster_tools/focal.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/raster_tools/focal.py b/raster_tools/focal.py
index ef03806..204d928 100644
--- a/raster_tools/focal.py
+++ b/raster_tools/focal.py
@@ -6,6 +6,8 @@ import numpy as np
 from dask_image import ndfilters
 
 from raster_tools.dtypes import (
+    F16,
+    F32,
     F64,
     U8,
     U16,
@@ -201,6 +203,9 @@ def _correlate(data, kernel, mode="constant", cval=0.0, nan_aware=False):
         data = da.from_array(data)
     if nan_aware:
         data = promote_data_dtype(data)
+        if data.dtype == F16:
+            # Numba doesn't support float16
+            data = data.astype(F32)
     if is_bool(kernel.dtype):
         kernel = kernel.astype(int)
     if is_float(data.dtype) and is_int(kernel.dtype):
@@ -302,6 +307,9 @@ def _focal(data, kernel, stat, nan_aware=False):
         # Use _focal_chunk which is slower but handles nan values.
         # Promote to allow for nan boundary fill values.
         new_dtype = promote_dtype_to_float(data.dtype)
+        if new_dtype == F16:
+            # Numba doesn't support float16
+            new_dtype = F32
         if new_dtype != data.dtype:
             data = data.astype(new_dtype)
 
@@ -565,11 +573,9 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     final_dtype = data.dtype
 
     # Convert to float and fill nulls with nan, if needed
-    upcast = False
     if raster._masked:
         new_dtype = promote_dtype_to_float(data.dtype)
-        upcast = new_dtype != data.dtype
-        if upcast:
+        if new_dtype != data.dtype:
             data = data.astype(new_dtype)
         data = da.where(raster.mask, np.nan, data)
 
@@ -578,10 +584,9 @@ def correlate(raster, kernel, mode="constant", cval=0.0):
     )
 
     # Cast back to int, if needed
-    if upcast:
-        data = data.astype(final_dtype)
-
     if raster._masked:
+        if data.dtype != final_dtype:
+            data = data.astype(final_dtype)
         nv = raster.null_value
         mask = raster.mask.copy()
         ds = data_to_xr_raster_ds_like(
-- 
2.43.0


From b65ab344230154be31753351b9f0f328849ae78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 15/17] fix: limit the proximity chunk overlap to the size of
 the raster

A max_distance larger than one side of the raster but smaller than its
diagonal made dask raise 'The overlapping depth is larger than your array'.
---
 raster_tools/distance/proximity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index eea1463..9928219 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -585,6 +585,9 @@ def _proximity_analysis(
             # underestimate the depth.
             resolution = _estimate_min_resolution(x, y)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
+        # The overlap can't be larger than the raster along either axis
+        xdepth = min(xdepth, x.size)
+        ydepth = min(ydepth, y.size)
     coords_block_info = {
         "chunks": raster.data.chunks[1:],
         "depth": (ydepth, xdepth),
-- 
2.43.0


From f26dda3c2167bc43cfc0bb153515770bb55b5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 16/17] fix: do not underestimate the great circle proximity
 chunk overlap

The cell width was taken at the largest latitude, which is not the narrowest
one south of the equator, and was assumed to add up along a parallel. Targets
beyond the chunk overlap were missed, so results depended on the chunks.
---
 raster_tools/distance/proximity.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/raster_tools/distance/proximity.py b/raster_tools/distance/proximity.py
index 9928219..3018c85 100644
--- a/raster_tools/distance/proximity.py
+++ b/raster_tools/distance/proximity.py
@@ -523,12 +523,20 @@ def _validate_lonlat_coords(lon, lat):
         )
 
 
-def _estimate_min_resolution(lon, lat):
+def _estimate_min_resolution(lon, lat, max_distance):
+    # Cells are narrowest at the latitude that is farthest from the equator
     x1 = lon[0]
-    y1 = lat.max()
-    x2 = lon[1]
-    y2 = y1
-    xmin = np.sqrt(_haversine_dist_sqr(x1, y1, x2, y2))
+    y1 = lat[np.abs(lat).argmax()]
+    # The distance between two cells on the same parallel is less than the
+    # number of steps between them times the distance of a single step, so use
+    # the smallest distance per step within reach. Targets are tracked until
+    # the squared distance exceeds twice the squared max distance.
+    xmin = np.inf
+    for n, x2 in enumerate(lon[1:], start=1):
+        dist_sqr = _haversine_dist_sqr(x1, y1, x2, y1)
+        xmin = min(xmin, np.sqrt(dist_sqr) / n)
+        if dist_sqr > 2 * max_distance * max_distance:
+            break
     x1 = lon[0]
     x2 = lon[0]
     # Get two largest latitudes
@@ -580,10 +588,10 @@ def _proximity_analysis(
         else:
             # When x/y are lon/lat, the resolution in meters decreases with
             # increasing latitude. Estimate the minimum resolution (cell size
-            # at highest latitude) and use that for chunk overlap calculation.
-            # Use minimum so that we always overestimate and never
+            # farthest from the equator) and use that for chunk overlap
+            # calculation. Use minimum so that we always overestimate and never
             # underestimate the depth.
-            resolution = _estimate_min_resolution(x, y)
+            resolution = _estimate_min_resolution(x, y, max_distance)
         xdepth, ydepth = np.ceil(max_distance / np.abs(resolution)).astype(int)
         # The overlap can't be larger than the raster along either axis
         xdepth = min(xdepth, x.size)
-- 
2.43.0


From 31ff12aa322761cb833ecc2eb2c48a47571384ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 17/17] fix: limit the line length chunk overlap to the size of
 the raster

A radius larger than one side of like_rast raised 'The overlapping depth is
larger than your array'.
---
 raster_tools/line_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raster_tools/line_stats.py b/raster_tools/line_stats.py
index 80d271e..082d4fb 100644
--- a/raster_tools/line_stats.py
+++ b/raster_tools/line_stats.py
@@ -295,6 +295,9 @@ def length(features, like_rast, radius, weighting_field=None):
     gdf = features.to_crs(like_rast.crs).data
 
     xdepth, ydepth = np.ceil(radius / np.abs(like_rast.resolution)).astype(int)
+    # The overlap can't be larger than the raster along either axis
+    xdepth = min(xdepth, like_rast.x.size)
+    ydepth = min(ydepth, like_rast.y.size)
 
     partials = []
     for part in gdf.partitions:
-- 
2.43.0

