From 62ca2a8b857f796500d8b22aaee41e41b0a3a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 01/42] fix: longitude 0 instead of 180 (and NaN at the poles)
 in xyz2lonlat

arccos(x/r) * sign(y) gives 0 for every point exactly on the antimeridian (y == 0, x < 0)
and 0/0 on the rotation axis.
---
 geotiepoints/geointerpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
-- 
2.43.0


From 6bbefdf6e3f4023d9c3b54d2c61afeeefa8198c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 02/42] fix: longitude 0 instead of 180 (and NaN at the poles)
 in the VII interpolator

---
 geotiepoints/viiinterpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From f3ffc47f60aaeee9cdd2b3280ae8cfbc5f9d923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 03/42] fix: longitude 0 instead of 180 (and NaN at the poles)
 in the MODIS interpolators

---
 geotiepoints/_modis_utils.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
-- 
2.43.0


From fbfd14796950c7bd3324583d6ed0eb7edb79dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 04/42] fix: angle based MODIS interpolation rejects 64-bit
 floating point input

The pixel coordinates are always created as 32-bit floats, so assigning them to the fused
type buffers raised 'Buffer dtype mismatch' for 64-bit arrays.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..5631867 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 95e5b9f9b2c228ebeb8203960b32af6fed5b42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 05/42] fix: NaN positions between tiepoints that are both at
 nadir

Two neighbouring zero zenith angles made the expansion and alignment coefficients 0 / 0.
---
 geotiepoints/_modis_interpolator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 5631867..34279da 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -61,6 +61,12 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
 
+            if denominator == 0:
+                # both tiepoints are at nadir, there is nothing to correct for
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
+
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
             sin_beta_2 = scan_width / (2 * H)
-- 
2.43.0


From ccf965a9644acf22eaf472e030be81fb4c9082b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 06/42] fix: 5km to 500m and 250m MODIS interpolation is off by
 up to 25 km

The fine pixel coordinates within a 5km cell were those of the 5km to 1km case (tiepoint on row 2,
two columns before the first tiepoint, ...) whatever the target resolution.
---
 geotiepoints/_modis_interpolator.pyx | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 34279da..9b1ae30 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -236,22 +236,16 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        # the 5km tiepoint is on the third of the five 1km rows and columns it stands for: fine rows are centered
+        # on the 1km rows, while the first fine column of each 1km column is aligned with it
+        cdef int fine_pixels_per_1km = self._factor_5km // 2
+        cdef int last_pixels = self._factor_5km
+        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - (2 * fine_pixels_per_1km + (fine_pixels_per_1km - 1) / 2.0)
+        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel
+        x[:self._factor_5km] = np.arange(-self._factor_5km, 0)
+        if self._coarse_scan_width == 270:
+            last_pixels += self._fine_pixels_per_coarse_pixel
+        x[self._fine_scan_width - last_pixels:] = np.arange(last_pixels) + self._fine_pixels_per_coarse_pixel
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From a71006d1bc543753d61db8cb578a5d55931833ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 07/42] fix: out of bounds accesses for tiepoint arrays of
 unexpected shape

The angle based MODIS interpolation trusted that all arrays had the same shape, whole scans and
the expected scan width: otherwise it read and wrote outside of its buffers or returned
uninitialized rows.
---
 geotiepoints/_modis_interpolator.pyx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 9b1ae30..e6aa309 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -1,6 +1,7 @@
 # cython: language_level=3, boundscheck=False, cdivision=True, wraparound=False, initializedcheck=False, nonecheck=False
 cimport cython
 from ._modis_utils cimport lonlat2xyz, xyz2lonlat, floating, deg2rad
+from ._modis_utils import rows_per_scan_for_resolution
 from .simple_modis_interpolator import scanline_mapblocks
 
 from libc.math cimport asin, sin, cos, sqrt
@@ -34,10 +35,24 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    _check_tiepoint_arrays(lon1, lat1, satz1, coarse_resolution, coarse_scan_width)
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
     return interp.interpolate(lon1, lat1, satz1)
 
 
+def _check_tiepoint_arrays(lon1, lat1, satz1, coarse_resolution, coarse_scan_width):
+    """Make sure the arrays can be handled without accessing memory outside of them."""
+    if lat1.shape != lon1.shape or satz1.shape != lon1.shape:
+        raise ValueError("Longitudes, latitudes and zenith angles must have the same shape.")
+    rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
+    if lon1.shape[0] % rows_per_scan != 0:
+        raise ValueError("Input longitude/latitude data does not consist of "
+                         f"whole scans ({rows_per_scan} rows per scan).")
+    scan_width = 1354 if coarse_resolution == 1000 else (coarse_scan_width or 271)
+    if lon1.shape[1] != scan_width:
+        raise ValueError(f"Input longitude/latitude data must have {scan_width} columns.")
+
+
 cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] satz_b, int scan_width,
                                        floating[:, ::1] c_expansion, floating[:, ::1] c_alignment) noexcept nogil:
     """Fill in expansion and alignment.
-- 
2.43.0


From 90be043a3c6c6963ec166d03b1be6982427fc8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 08/42] fix: out of bounds accesses in the simple MODIS
 interpolator

Arrays of different shapes, partial scans, single columns and unsupported resolutions made it access
memory outside of its buffers or return uninitialized rows.
---
 geotiepoints/_simple_modis_interpolator.pyx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..69bf12f 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,6 +15,7 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
+    _check_tiepoint_arrays(lon_array, lat_array, coarse_resolution, fine_resolution)
     lon_array = np.ascontiguousarray(lon_array)
     lat_array = np.ascontiguousarray(lat_array)
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
@@ -64,6 +65,22 @@ def interpolate_geolocation_cartesian(
     return new_lons, new_lats
 
 
+def _check_tiepoint_arrays(lon_array, lat_array, coarse_resolution, fine_resolution):
+    """Make sure the arrays can be handled without accessing memory outside of them."""
+    if fine_resolution == 0 or coarse_resolution / fine_resolution not in (2, 4):
+        raise ValueError("The resolution can only be increased by a factor 2 or 4.")
+    rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
+    if rows_per_scan < 10:
+        raise ValueError(f"Interpolation from {coarse_resolution}m is not supported.")
+    if lat_array.shape != lon_array.shape:
+        raise ValueError("Longitudes and latitudes must have the same shape.")
+    if lon_array.shape[0] % rows_per_scan != 0:
+        raise ValueError("Input longitude/latitude data does not consist of "
+                         f"whole scans ({rows_per_scan} rows per scan).")
+    if lon_array.shape[1] < 2:
+        raise ValueError("At least two columns are needed.")
+
+
 @cython.boundscheck(False)
 @cython.cdivision(True)
 @cython.wraparound(False)
-- 
2.43.0


From 57b152900be2f8f5e3a8e4f6f86eea0c98ca65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 09/42] fix: MODIS interpolation of dask arrays whose first
 chunk is less than a scan

The chunk size was rounded down to 0 rows, which dask refused (ZeroDivisionError).
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..001fb0e 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -183,7 +183,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From e32559a23c2ab473d5b5489ec902d826bd53710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 10/42] fix: wrong shape of lazy results for scans of other
 than 1354 pixels

The simple MODIS interpolator handles any scan width, but announced 1354 * factor columns for
dask arrays whatever the width of the input.
---
 geotiepoints/_modis_utils.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 001fb0e..5ebb7a1 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -138,7 +138,10 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
     fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 5000:
+        fine_scan_width = 1354 * fine_pixels_per_1km
+    else:
+        fine_scan_width = first_arr.shape[1] * res_factor
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From b0811a6c041f58279632477da92764d571d9d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 11/42] fix: MODIS interpolation of DataArrays that hold numpy
 arrays

DataArrays were assumed to hold dask arrays: AttributeError: 'numpy.ndarray' object has no
attribute 'chunks'.
---
 geotiepoints/_modis_utils.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 5ebb7a1..2818414 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -106,6 +106,15 @@ def scanline_mapblocks(func):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
             dask_args = _extract_dask_arrays_from_args(args)
+            if not hasattr(dask_args[0], "chunks"):
+                # DataArray holding a numpy array
+                results = func(
+                    *dask_args,
+                    coarse_resolution=coarse_resolution,
+                    fine_resolution=fine_resolution,
+                    **kwargs
+                )
+                return [xr.DataArray(result, dims=first_arr.dims) for result in results]
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
-- 
2.43.0


From 4537c0329d5ccfe7f3403ad28f2fd7fd3fbffe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 12/42] fix: lazy grid and spline interpolation ignored the
 values of the fine points

Every chunk was interpolated to 0, 1, 2... instead of the points it was asked for.
---
 geotiepoints/interpolator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..127f3ac 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -271,11 +271,10 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
-
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (partial(self.interpolate_numpy,
+                                              (v_fine_points[slice_y], h_fine_points[slice_x]),
+                                              **interpolator_call_kwargs),)
+                for position, (slice_y, slice_x) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From eb217e548fc978da7e33388f0c62d452e2ed35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 13/42] fix: lazy results of different interpolators could have
 the same dask name

The name depended neither on the kind of interpolator nor on how it was set up (method, bounds,
spline orders), so that computing two such results together gave one of them twice.
---
 geotiepoints/interpolator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 127f3ac..a68920c 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -239,6 +239,7 @@ class AbstractSingleInterpolator(ABC):
         So for example, to allow extrapolation, the kwargs can be `bounds_error=False, fill_value=None`.
         """
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
+        self._init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
@@ -268,7 +269,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(type(self), self._init_kwargs, chunks, self.points, self.values, fine_points,
+                         interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         dskx = {(name, ) + position: (partial(self.interpolate_numpy,
@@ -330,6 +332,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
     def __init__(self, points, values, **interpolator_init_kwargs):
         """Set up the spline interpolator."""
         self.interpolator = RectBivariateSpline(*points, values, **interpolator_init_kwargs)
+        self._init_kwargs = interpolator_init_kwargs
         self.points = points
         self.values = values
 
-- 
2.43.0


From e2c6cad1b6c2e17ba7cd7ac6839a038bc4c45fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 14/42] fix: BasicSatelliteInterpolator used
 DataFrame.as_matrix, which pandas removed

---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From 557e1daa6fbe52d53d4f194ae4db1697dd29502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 15/42] fix: filling of the row borders depended on the unit of
 the row positions

The tiepoints of a chunk were looked up by comparing row positions with tiepoint row numbers, so
it only worked if the positions were expressed in tiepoint rows. generic_modis5kmto1km always
failed with an IndexError because of this.
---
 geotiepoints/interpolator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index a68920c..cdfb45d 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -170,8 +170,9 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
+            tie_rows = np.arange(len(self.row_indices))
+            indices = np.logical_and(tie_rows >= index / factor,
+                                     tie_rows < (index + chunk_size) / factor)
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
 
-- 
2.43.0


From d1596c6a269cd157e086f8cb18791ef7e44b55ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 16/42] fix: fill_borders failed when tie rows are already on
 the border

---
 geotiepoints/interpolator.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index cdfb45d..360865b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -176,19 +176,22 @@ class Interpolator:
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
 
+            first_index = self.hrow_indices[index]
+            last_index = self.hrow_indices[index + chunk_size - 1]
+            positions = np.concatenate(([first_index], tiepos, [last_index]))
+            # as for columns, tiepoints that are already on the border are kept
+            keep = np.array([first_index != tiepos[0]] + [True] * len(tiepos) + [last_index != tiepos[-1]])
+
             for num, data in enumerate(self.tie_data):
                 to_extrapolate = data[ties, :]
                 if len(to_extrapolate) > 0:
                     extrapolated = self._extrapolate_rows(to_extrapolate,
                                                           tiepos,
-                                                          self.hrow_indices[
-                                                              index],
-                                                          self.hrow_indices[index + chunk_size - 1])
-                    tmp_data[num].append(extrapolated)
-
-            row_indices.append(np.array([self.hrow_indices[index]]))
-            row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+                                                          first_index,
+                                                          last_index)
+                    tmp_data[num].append(extrapolated[keep])
+
+            row_indices.append(positions[keep])
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From 9398134718c637485d3a9bca251217e87686e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 17/42] fix: one-dimensional interpolation truncated the
 results for integer data

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 360865b..a4924eb 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -219,7 +219,7 @@ class Interpolator:
         for num, data in enumerate(self.tie_data):
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From 369ab392550fe9f44c5a07d02da87bc9b49f45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 18/42] fix: wrong interval for multilinear extrapolation far
 from the grid

---
 geotiepoints/multilinear_cython.pyx | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..aa90578 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -10,6 +10,15 @@ import numpy as np
 np.import_array()
 
 
+cdef inline int _lower_index(floating position, int last_index) noexcept nogil:
+    """Get the index of the interval containing *position*, clipped before the conversion to integer."""
+    if position >= last_index:
+        return last_index
+    if position > 0:
+        return <int>position
+    return 0
+
+
 def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders, floating[:,::1] values, floating[:,::1] s):
 
     cdef Py_ssize_t d = s.shape[0]
@@ -65,7 +74,7 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             sn_0 = (s_0-smin[0])/(smax[0]-smin[0])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_0 = _lower_index(sn_0*(order_0-1), order_0-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -106,8 +115,8 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             sn_1 = (s_1-smin[1])/(smax[1]-smin[1])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_0 = _lower_index(sn_0*(order_0-1), order_0-2)
+            q_1 = _lower_index(sn_1*(order_1-1), order_1-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -160,9 +169,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             sn_2 = (s_2-smin[2])/(smax[2]-smin[2])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_0 = _lower_index(sn_0*(order_0-1), order_0-2)
+            q_1 = _lower_index(sn_1*(order_1-1), order_1-2)
+            q_2 = _lower_index(sn_2*(order_2-1), order_2-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -235,10 +244,10 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             sn_3 = (s_3-smin[3])/(smax[3]-smin[3])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_0 = _lower_index(sn_0*(order_0-1), order_0-2)
+            q_1 = _lower_index(sn_1*(order_1-1), order_1-2)
+            q_2 = _lower_index(sn_2*(order_2-1), order_2-2)
+            q_3 = _lower_index(sn_3*(order_3-1), order_3-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -341,11 +350,11 @@ cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
             sn_4 = (s_4-smin[4])/(smax[4]-smin[4])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
-            q_4 = max( min( <int>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
+            q_0 = _lower_index(sn_0*(order_0-1), order_0-2)
+            q_1 = _lower_index(sn_1*(order_1-1), order_1-2)
+            q_2 = _lower_index(sn_2*(order_2-1), order_2-2)
+            q_3 = _lower_index(sn_3*(order_3-1), order_3-2)
+            q_4 = _lower_index(sn_4*(order_4-1), order_4-2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
-- 
2.43.0


From caf6a16fa772d8584b04b0bf2821c16819a77138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 19/42] fix: out of bounds accesses in multilinear
 interpolation for inconsistent grids

---
 geotiepoints/multilinear_cython.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index aa90578..00eba9a 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -24,6 +24,7 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     cdef Py_ssize_t d = s.shape[0]
     cdef Py_ssize_t n_s = s.shape[1]
     cdef Py_ssize_t n_v = values.shape[0]
+    cdef Py_ssize_t dim, n_grid = 1
 
     if floating is float:
         dtype = np.single
@@ -37,6 +38,16 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
+    if d == 0 or smin.shape[0] != d or smax.shape[0] != d or orders.shape[0] != d:
+        raise ValueError("The grid and the points to interpolate to must have the same number of dimensions.")
+    for dim in range(d):
+        if orders[dim] < 2:
+            raise ValueError("At least two grid points are needed along each dimension.")
+        if orders[dim] > values.shape[1] // n_grid:
+            raise ValueError("There must be one value per grid point.")
+        n_grid *= orders[dim]
+    if values.shape[1] != n_grid:
+        raise ValueError("There must be one value per grid point.")
 
     with nogil:
         for i in range(n_v):
-- 
2.43.0


From b736e14dec734e02ceed1cc5f02baafb2534c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 20/42] fix: MODIS and multilinear interpolation rejected
 read-only arrays

---
 geotiepoints/_modis_interpolator.pyx        |  6 +++---
 geotiepoints/_simple_modis_interpolator.pyx |  4 ++--
 geotiepoints/multilinear.py                 | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index e6aa309..65f2551 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -154,9 +154,9 @@ cdef class MODISInterpolator:
             np.ndarray[floating, ndim=2] lat1,
             np.ndarray[floating, ndim=2] satz1):
         """Interpolate MODIS geolocation from 'coarse_resolution' to 'fine_resolution'."""
-        lon1 = np.ascontiguousarray(lon1)
-        lat1 = np.ascontiguousarray(lat1)
-        satz1 = np.ascontiguousarray(satz1)
+        lon1 = np.require(lon1, requirements="CW")
+        lat1 = np.require(lat1, requirements="CW")
+        satz1 = np.require(satz1, requirements="CW")
 
         cdef int num_fine_scan_rows = self._coarse_scan_length * self._fine_pixels_per_coarse_pixel
         cdef int num_fine_scan_cols = self._fine_scan_width
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 69bf12f..6ee92e4 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -16,8 +16,8 @@ def interpolate_geolocation_cartesian(
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
     _check_tiepoint_arrays(lon_array, lat_array, coarse_resolution, fine_resolution)
-    lon_array = np.ascontiguousarray(lon_array)
-    lat_array = np.ascontiguousarray(lat_array)
+    lon_array = np.require(lon_array, requirements="CW")
+    lat_array = np.require(lat_array, requirements="CW")
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
     cdef unsigned int res_factor = coarse_resolution // fine_resolution
     cdef Py_ssize_t num_rows = lon_array.shape[0]
diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..6c0d99a 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -59,9 +59,9 @@ class MultilinearInterpolator:
     __grid__ = None
 
     def __init__(self, smin, smax, orders, values=None, dtype=np.float64):
-        self.smin = np.asarray(smin, dtype=dtype)
-        self.smax = np.asarray(smax, dtype=dtype)
-        self.orders = np.asarray(orders, dtype="long")
+        self.smin = np.require(smin, dtype=dtype, requirements="W")
+        self.smax = np.require(smax, dtype=dtype, requirements="W")
+        self.orders = np.require(orders, dtype="long", requirements="W")
         self.d = len(orders)
         self.dtype = dtype
         if values is not None:
@@ -74,10 +74,10 @@ class MultilinearInterpolator:
         return self.__grid__
 
     def set_values(self, values):
-        self.values = np.ascontiguousarray(values, dtype=self.dtype)
+        self.values = np.require(values, dtype=self.dtype, requirements="CW")
 
     def interpolate(self, s):
-        s = np.ascontiguousarray(s, dtype=self.dtype)
+        s = np.require(s, dtype=self.dtype, requirements="CW")
         a = multilinear_interpolation(
             self.smin, self.smax, self.orders, self.values, s)
         return a
-- 
2.43.0


From 86396461e08138f7987121756ffee27e8d61b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 21/42] fix: last row of scans in simple interpolation from
 500m to 250m

---
 geotiepoints/_simple_modis_interpolator.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 6ee92e4..97ab4f0 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -215,6 +215,7 @@ cdef void _interpolate_xyz_500(
         floating[:, :, ::1] coordinates_view,
 ) noexcept nogil:
     cdef Py_ssize_t col_idx
+    cdef Py_ssize_t last_row = result_view.shape[0] - 1
     cdef floating m, b
     for col_idx in range(result_view.shape[1]):
         # Use linear extrapolation for the first two 250 meter pixels along track
@@ -233,13 +234,13 @@ cdef void _interpolate_xyz_500(
         m = _calc_slope_500(
             result_view[:, col_idx],
             coordinates_view[0],
-            17)
+            last_row - 2)
         b = _calc_offset_500(
             result_view[:, col_idx],
             coordinates_view[0],
             m,
-            17)
-        result_view[19, col_idx] = m * coordinates_view[0, 19, 0] + b
+            last_row - 2)
+        result_view[last_row, col_idx] = m * coordinates_view[0, last_row, 0] + b
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 8ae19438176d24616dd5881dc053ad22c16ac5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 22/42] fix: grid of one-dimensional multilinear interpolators
 raised TypeError

---
 geotiepoints/multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index 6c0d99a..8abe90d 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -8,7 +8,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
         res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+            np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 6a0be5699c641280a45c691c91582e6233027e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 23/42] fix: NaN latitudes close to the equator in xyz2lonlat
 without low_lat_z

---
 geotiepoints/geointerpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index b2eb3e2..8c7050e 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -62,7 +62,8 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
     lons = np.rad2deg(np.arctan2(y__, x__))
-    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
+    # the ratio may exceed 1 by rounding errors close to the equator
+    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.minimum(np.sqrt(x__ ** 2 + y__ ** 2) / radius, 1))))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
         # latitudes only from z. If we are at high latitudes (close to the poles)
-- 
2.43.0


From 57352ce8ab98ae38cbef35d0fc43557ae57b5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 24/42] fix: NaN latitudes close to the equator in the VII
 interpolator with a low z threshold

---
 geotiepoints/viiinterpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 421a29f..11472a6 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -173,6 +173,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
         90. - np.rad2deg(np.arccos(z_coords / MEAN_EARTH_RADIUS)),
-        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(r / MEAN_EARTH_RADIUS)))
+        # the ratio may exceed 1 by rounding errors close to the equator
+        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(np.minimum(r / MEAN_EARTH_RADIUS, 1.))))
     )
     return lons, lats
-- 
2.43.0


From 482653def36c14efccd2cb967ec9402332047df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 25/42] fix: rounding errors assigned tie rows to the wrong
 chunk when filling borders

---
 geotiepoints/interpolator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index a4924eb..457d9dd 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -162,7 +162,7 @@ class Interpolator:
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
+        tie_lines = len(self.row_indices)
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -170,9 +170,10 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            tie_rows = np.arange(len(self.row_indices))
-            indices = np.logical_and(tie_rows >= index / factor,
-                                     tie_rows < (index + chunk_size) / factor)
+            # in integers, since rounding errors could move rows to another chunk
+            tie_rows = np.arange(tie_lines) * lines
+            indices = np.logical_and(tie_rows >= index * tie_lines,
+                                     tie_rows < (index + chunk_size) * tie_lines)
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
 
-- 
2.43.0


From 90966fa46e49dc8e18e2d734981fb619b73e1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 26/42] fix: crash of zenith angle based MODIS interpolation
 for unsupported resolutions

---
 geotiepoints/_modis_interpolator.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 65f2551..8aa03ea 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -35,6 +35,10 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    if coarse_resolution not in (1000, 5000) or fine_resolution not in (250, 500, 1000):
+        raise NotImplementedError(
+            f"Can't interpolate from {coarse_resolution}m to {fine_resolution}m."
+        )
     _check_tiepoint_arrays(lon1, lat1, satz1, coarse_resolution, coarse_scan_width)
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
     return interp.interpolate(lon1, lat1, satz1)
-- 
2.43.0


From 61b99ddd7e7c07f01ecc1f26ea389cc201d8a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 27/42] fix: dask arrays of different shapes were broadcast in
 MODIS interpolation

---
 geotiepoints/_modis_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 2818414..9f947ff 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -102,6 +102,8 @@ def scanline_mapblocks(func):
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         if first_arr.ndim != 2 or first_arr.ndim != 2:
             raise ValueError("Expected 2D input arrays.")
+        if any(arr.shape != first_arr.shape for arr in args if hasattr(arr, "ndim")):
+            raise ValueError("Expected input arrays of the same shape.")
         if hasattr(first_arr, "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
-- 
2.43.0


From 66c45fd55d05993f9b05fada734816793f1ecc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:12 +0000
Subject: [PATCH 28/42] fix: tie point data larger than the tie point grid was
 silently truncated

---
 geotiepoints/interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 457d9dd..4b26bd4 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -78,6 +78,8 @@ class Interpolator:
             self.tie_data = [data]
         else:
             self.tie_data = list(data)
+        if any(np.shape(tie_data) != (len(self.row_indices), len(self.col_indices)) for tie_data in self.tie_data):
+            raise ValueError("The shape of the data must match the tiepoint grid.")
 
         self.new_data = [[] for _ in self.tie_data]
         self.kx_, self.ky_ = kx_, ky_
-- 
2.43.0


From eb4be9c4c4dd56f36027d9ca0ec2d173bf48fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 29/42] fix: results of the generic interpolator changed when
 interpolating again

---
 geotiepoints/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 4b26bd4..8dacfc6 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -233,7 +233,8 @@ class Interpolator:
         """Do the interpolation, and return resulting longitudes and latitudes."""
         self._interp()
 
-        return self.new_data
+        # the next interpolation replaces the elements of new_data
+        return list(self.new_data)
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From 64cee11ebfe16072cb624d92a829117f5736ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 30/42] fix: the step of slices was ignored in
 interpolate_slices

---
 geotiepoints/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 8dacfc6..ded3301 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -302,8 +302,8 @@ class AbstractSingleInterpolator(ABC):
         *fine_points* are a tuple of slices for the y and x dimensions
         """
         slice_y, slice_x = fine_points
-        points_y = np.arange(slice_y.start, slice_y.stop)
-        points_x = np.arange(slice_x.start, slice_x.stop)
+        points_y = np.arange(slice_y.start, slice_y.stop, slice_y.step)
+        points_x = np.arange(slice_x.start, slice_x.stop, slice_x.step)
         fine_points = points_y, points_x
 
         return self.interpolate_numpy(fine_points, **interpolator_call_kwargs)
-- 
2.43.0


From d91c567cc76c36da17275f109e81d20f54de0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 31/42] fix: lazy MODIS interpolation could not be computed in
 other processes

The blocks' function closed over the undecorated function, which is pickled by
the name of the decorated one; dask's processes and distributed schedulers failed.
---
 geotiepoints/_modis_utils.pyx | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 9f947ff..88697c8 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -1,5 +1,5 @@
 # cython: language_level=3, boundscheck=False, cdivision=True, wraparound=False, initializedcheck=False, nonecheck=False
-from functools import wraps
+from functools import partial, wraps
 
 cimport cython
 cimport numpy as np
@@ -119,8 +119,9 @@ def scanline_mapblocks(func):
                 return [xr.DataArray(result, dims=first_arr.dims) for result in results]
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
+            # the wrapper rather than ``func``: it is what can be imported, hence pickled, by name
             results = _call_map_blocks_interp(
-                func,
+                _wrapper,
                 coarse_resolution,
                 fine_resolution,
                 *rechunked_args,
@@ -154,8 +155,7 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     else:
         fine_scan_width = first_arr.shape[1] * res_factor
     new_col_chunks = (fine_scan_width,)
-    wrapped_func = _map_blocks_handler(func)
-    res = da.map_blocks(wrapped_func, *args,
+    res = da.map_blocks(partial(_interpolate_block, func), *args,
                         coarse_resolution=coarse_resolution,
                         fine_resolution=fine_resolution,
                         **kwargs,
@@ -202,13 +202,8 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     return new_args
 
 
-def _map_blocks_handler(func):
-    @wraps(func)
-    def _map_blocks_wrapper(*args, **kwargs):
-        results = func(*args, **kwargs)
-        return np.concatenate(
-            tuple(result[np.newaxis] for result in results),
-            axis=0)
-    return _map_blocks_wrapper
-
-
+def _interpolate_block(func, *args, **kwargs):
+    results = func(*args, **kwargs)
+    return np.concatenate(
+        tuple(result[np.newaxis] for result in results),
+        axis=0)
-- 
2.43.0


From 43e78928e0ee2a2e46f116b2d08f79a689a55356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 32/42] fix: lon/lat only interpolation by four assumed scans
 of ten rows

Tie points of 500 m have 20 rows per scan: fine rows in the middle of the scan
were extrapolated, and the last two of the scan were not.
---
 geotiepoints/_simple_modis_interpolator.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 97ab4f0..ddb63d1 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -176,6 +176,7 @@ cdef void _interpolate_xyz_250(
         floating[:, :, ::1] coordinates_view,
 ) noexcept nogil:
     cdef Py_ssize_t col_idx
+    cdef Py_ssize_t last_row = result_view.shape[0] - 1
     cdef floating m, b
     cdef floating[:] result_col_view
     cdef floating[:, ::1] y_coordinates = coordinates_view[0]
@@ -197,13 +198,13 @@ cdef void _interpolate_xyz_250(
         # b = result_array[k0 + 37, :] - m * y[37, 0]
         m = _calc_slope_250(result_col_view,
                             y_coordinates,
-                            34)
+                            last_row - 5)
         b = _calc_offset_250(result_col_view,
                              y_coordinates,
                              m,
-                             34)
-        result_view[38, col_idx] = m * y_coordinates[38, 0] + b
-        result_view[39, col_idx] = m * y_coordinates[39, 0] + b
+                             last_row - 5)
+        result_view[last_row - 1, col_idx] = m * y_coordinates[last_row - 1, 0] + b
+        result_view[last_row, col_idx] = m * y_coordinates[last_row, 0] + b
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 0004bca859ad00ef759118b4e1fdd117c56abd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 33/42] fix: threads sharing an interpolator object could get
 unfinished or shared results

---
 geotiepoints/basic_interpolator.py |  7 ++++---
 geotiepoints/interpolator.py       | 27 ++++++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 5245f76..2a03331 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -82,7 +82,8 @@ class BasicSatelliteInterpolator(object):
     def interpolate(self):
         """Do the interpolation and return resulting longitudes and latitudes.
         """
-        self.latitude = self._interp(self.lat_tiepoint)
-        self.longitude = self._interp(self.lon_tiepoint)
+        latitude = self._interp(self.lat_tiepoint)
+        longitude = self._interp(self.lon_tiepoint)
+        self.latitude, self.longitude = latitude, longitude
 
-        return self.latitude, self.longitude
\ No newline at end of file
+        return latitude, longitude
\ No newline at end of file
diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index ded3301..bc8fc3d 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -205,7 +205,8 @@ class Interpolator:
         if np.array_equal(self.hrow_indices, self.row_indices):
             return self._interp1d()
 
-        for num, data in enumerate(self.tie_data):
+        new_data = []
+        for data in self.tie_data:
             spl = RectBivariateSpline(self.row_indices,
                                       self.col_indices,
                                       data,
@@ -213,28 +214,32 @@ class Interpolator:
                                       kx=self.kx_,
                                       ky=self.ky_)
 
-            self.new_data[num] = spl(self.hrow_indices, self.hcol_indices, grid=True)
+            new_data.append(spl(self.hrow_indices, self.hcol_indices, grid=True))
+        return new_data
 
     def _interp1d(self):
         """Interpolate in one dimension."""
         lines = len(self.hrow_indices)
 
-        for num, data in enumerate(self.tie_data):
-            self.new_data[num] = np.empty((len(self.hrow_indices),
-                                           len(self.hcol_indices)),
-                                          np.result_type(data.dtype, np.float32))
+        new_data = []
+        for data in self.tie_data:
+            interpolated = np.empty((len(self.hrow_indices),
+                                     len(self.hcol_indices)),
+                                    np.result_type(data.dtype, np.float32))
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-                self.new_data[num][cnt, :] = splev(
+                interpolated[cnt, :] = splev(
                     self.hcol_indices, tck, der=0)
+            new_data.append(interpolated)
+        return new_data
 
     def interpolate(self):
         """Do the interpolation, and return resulting longitudes and latitudes."""
-        self._interp()
-
-        # the next interpolation replaces the elements of new_data
-        return list(self.new_data)
+        # other threads may be interpolating with this object as well
+        new_data = self._interp()
+        self.new_data = new_data
+        return list(new_data)
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From a9efdc97547c59a91722c20f934c7157a9878c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 34/42] fix: borders extrapolated wrongly from unsigned or
 small integer positions

---
 geotiepoints/interpolator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index bc8fc3d..10c28c8 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -48,7 +48,9 @@ def _linear_extrapolate(pos, data, xev):
         raise ValueError("len(pos) and the number of lines of data"
                          " must be 2.")
 
-    return data[1] + ((xev - pos[1]) / (1.0 * (pos[0] - pos[1])) * (data[0] - data[1]))
+    # differences of integers could wrap around
+    pos = 1.0 * np.asarray(pos)
+    return data[1] + ((xev - pos[1]) / (pos[0] - pos[1]) * (data[0] - data[1]))
 
 
 class Interpolator:
-- 
2.43.0


From 1c04150d67df45e3693580b6c6ddeab0602004f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 35/42] fix: borders extrapolated wrongly from unsigned or
 small integer data

---
 geotiepoints/interpolator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 10c28c8..7c03bf4 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -50,6 +50,7 @@ def _linear_extrapolate(pos, data, xev):
 
     # differences of integers could wrap around
     pos = 1.0 * np.asarray(pos)
+    data = [1.0 * line for line in data]
     return data[1] + ((xev - pos[1]) / (pos[0] - pos[1]) * (data[0] - data[1]))
 
 
-- 
2.43.0


From 10b71fe4611df9fbe995e1191cf343681017a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 36/42] fix: filling the borders failed for tie point rows
 given as a list

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 7c03bf4..7025308 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -180,7 +180,7 @@ class Interpolator:
             indices = np.logical_and(tie_rows >= index * tie_lines,
                                      tie_rows < (index + chunk_size) * tie_lines)
             ties = np.argwhere(indices).squeeze()
-            tiepos = self.row_indices[indices].squeeze()
+            tiepos = np.asarray(self.row_indices)[indices].squeeze()
 
             first_index = self.hrow_indices[index]
             last_index = self.hrow_indices[index + chunk_size - 1]
-- 
2.43.0


From a3c777bc1ce0795294de82c88d064d9cf41b7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 37/42] fix: interpolated integers were truncated, missing even
 the tie points by one

---
 geotiepoints/interpolator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 7025308..11c1b34 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -304,6 +304,13 @@ class AbstractSingleInterpolator(ABC):
         """Interpolate to a numpy array."""
         raise NotImplementedError
 
+    def _to_values_dtype(self, interpolated):
+        """Convert the interpolated values to the data type of the values on the tie points."""
+        if np.issubdtype(self.values.dtype, np.integer):
+            # truncating could miss even the tie point values by one
+            interpolated = np.rint(interpolated)
+        return interpolated.astype(self.values.dtype)
+
     def interpolate_slices(self, fine_points, **interpolator_call_kwargs):
         """Interpolate using slices.
 
@@ -339,7 +346,7 @@ class SingleGridInterpolator(AbstractSingleInterpolator):
     def interpolate_numpy(self, fine_points, **interpolator_call_kwargs):
         """Interpolate to a numpy array."""
         fine_x, fine_y = np.meshgrid(*fine_points, indexing='ij')
-        return self.interpolator((fine_x, fine_y), **interpolator_call_kwargs).astype(self.values.dtype)
+        return self._to_values_dtype(self.interpolator((fine_x, fine_y), **interpolator_call_kwargs))
 
 
 class SingleSplineInterpolator(AbstractSingleInterpolator):
@@ -354,7 +361,7 @@ class SingleSplineInterpolator(AbstractSingleInterpolator):
 
     def interpolate_numpy(self, fine_points, **interpolator_call_kwargs):
         """Interpolate to a numpy array."""
-        return self.interpolator(*fine_points, **interpolator_call_kwargs).astype(self.values.dtype)
+        return self._to_values_dtype(self.interpolator(*fine_points, **interpolator_call_kwargs))
 
 
 class AbstractMultipleInterpolator(ABC):  # noqa: B024
-- 
2.43.0


From bb3279bfe116079e11f5178c8bf9bf756a56a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 38/42] fix: basic interpolation was empty up to the largest
 position of a small integer type

---
 geotiepoints/basic_interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 2a03331..43cffcb 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -66,7 +66,8 @@ class BasicSatelliteInterpolator(object):
         """The actual transformation based on the following stackoverflow 
         entry: http://stackoverflow.com/a/10465162
         """
-        new_index = np.arange(indices[-1] + 1)
+        # small integers would wrap around if increased beyond their largest value
+        new_index = np.arange(np.asarray(indices)[-1].item() + 1)
 
         data_frame = DataFrame(data, index=indices)
         data_frame_reindexed = data_frame.reindex(new_index)
-- 
2.43.0


From 3a403432299df18dc5b51f252d53bef01481c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 39/42] fix: VII interpolation failed for scan sizes and
 factors given as small integers

---
 geotiepoints/viiinterpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 11472a6..9dd9b6d 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -31,6 +31,9 @@ def tie_points_interpolation(data_on_tie_points, scan_alt_tie_points, tie_points
     Returns:
         list of xarray DataArray objects containing the interpolated values on the pixel points.
     """
+    # small numpy integers could wrap around below
+    scan_alt_tie_points, tie_points_factor = int(scan_alt_tie_points), int(tie_points_factor)
+
     # Extract the dimensions of the tie points array across and along track
     n_tie_alt, n_tie_act = data_on_tie_points[0].shape
     dim_alt, dim_act = data_on_tie_points[0].dims
-- 
2.43.0


From e540638cb65b3ec916c383bd12fb968b4cc02fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 40/42] fix: latitudes of integer coordinates were wrong when
 their squares overflowed

---
 geotiepoints/geointerpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 8c7050e..4f169d6 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -63,7 +63,7 @@ def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
     lons = np.rad2deg(np.arctan2(y__, x__))
     # the ratio may exceed 1 by rounding errors close to the equator
-    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.minimum(np.sqrt(x__ ** 2 + y__ ** 2) / radius, 1))))
+    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.minimum(np.hypot(x__, y__) / radius, 1))))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
         # latitudes only from z. If we are at high latitudes (close to the poles)
-- 
2.43.0


From 1f285257e198c84e4c7101b56b772b9ec342e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:39 +0000
Subject: [PATCH 41/42] fix: leave no worker processes behind when the arrays
 cannot be split into parts

---
 geotiepoints/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/__init__.py b/geotiepoints/__init__.py
index dbbb260..33f0044 100644
--- a/geotiepoints/__init__.py
+++ b/geotiepoints/__init__.py
@@ -74,13 +74,13 @@ def modis5kmto1km(lons5km, lats5km):
 def _multi(fun, lons, lats, chunk_size, cores=1):
     """Work on multiple cores.
     """
-    pool = Pool(processes=cores)
-
     splits = get_scene_splits(lons.shape[0], chunk_size, cores)
 
     lons_parts = np.vsplit(lons, splits)
     lats_parts = np.vsplit(lats, splits)
 
+    pool = Pool(processes=cores)
+
     results = [pool.apply_async(fun,
                                 (lons_parts[i],
                                  lats_parts[i]))
-- 
2.43.0


From a1aef32208f2157f6d3d79e9bc4d454a8580367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:34 +0000
Subject: [PATCH 42/42] fix: tell arrays apart that have the same memory in
 another order of the axes

---
 geotiepoints/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 11c1b34..d55d5f6 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -285,8 +285,9 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
+        # dask's tokens of arrays do not tell in which order the axes are in memory
         token = tokenize(type(self), self._init_kwargs, chunks, self.points, self.values, fine_points,
-                         interpolator_call_kwargs)
+                         interpolator_call_kwargs, getattr(self.values, "strides", None))
         name = 'interpolate-' + token
 
         dskx = {(name, ) + position: (partial(self.interpolate_numpy,
-- 
2.43.0

