From 6bd7ffc0380b119320bc33b187c97c1b8ec8d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 01/23] fix: do not modify the pad_kwargs passed to the grid
 transformations

---
 src/harmonica/filters/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 5971e45..01bbfe2 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -71,8 +71,8 @@ def apply_filter(
     """
     if filter_kwargs is None:
         filter_kwargs = {}
-    if pad_kwargs is None:
-        pad_kwargs = {}
+    # Work on a copy so the dictionary passed by the user isn't modified below
+    pad_kwargs = {} if pad_kwargs is None else dict(pad_kwargs)
     grid_sanity_checks(grid)
     dims = grid.dims
     # Need to remove non-dimensional coordinates before padding and FFT because
-- 
2.43.0


From 461859c25a6d9cefcf06379e6f7f4f23afcbbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 02/23] fix: default magnetization angles to the field angles
 in reduction_to_pole

---
 src/harmonica/_transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/harmonica/_transformations.py b/src/harmonica/_transformations.py
index 0e16cb6..1388eea 100644
--- a/src/harmonica/_transformations.py
+++ b/src/harmonica/_transformations.py
@@ -447,6 +447,10 @@ def reduction_to_pole(
     --------
     harmonica.filters.reduction_to_pole_kernel
     """
+    if magnetization_inclination is None:
+        magnetization_inclination = inclination
+    if magnetization_declination is None:
+        magnetization_declination = declination
     return apply_filter(
         grid,
         reduction_to_pole_kernel,
-- 
2.43.0


From 421a4850a1552f9b4bc20d31f3313377ad65f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 03/23] fix: accept integer and broadcastable arrays as layers
 in isostatic_moho_airy

---
 src/harmonica/_isostasy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_isostasy.py b/src/harmonica/_isostasy.py
index 9538b96..6906acc 100644
--- a/src/harmonica/_isostasy.py
+++ b/src/harmonica/_isostasy.py
@@ -139,8 +139,12 @@ def isostatic_moho_airy(
     layers_equivalent_topography = 0
     if layers is not None:
         for thickness, density in layers.values():
-            layers_equivalent_topography += thickness * density
-        layers_equivalent_topography /= density_crust
+            # Avoid in-place operations: they fail on integer arrays and on layers
+            # whose arrays need to be broadcast
+            layers_equivalent_topography = (
+                layers_equivalent_topography + thickness * density
+            )
+        layers_equivalent_topography = layers_equivalent_topography / density_crust
 
     # Calculate rock equivalent topography
     rock_equivalent_topography = basement + layers_equivalent_topography
-- 
2.43.0


From 7214b5dc6e4df83b5e454b9272f01dcb0448efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 04/23] fix: broadcast the observation coordinates in the
 forward models

The shape of the output was obtained by broadcasting the coordinates, but the
coordinates themselves were only raveled, so the compiled loops read out of
bounds when they had different shapes (e.g. a scalar height).
---
 src/harmonica/_equivalent_sources/cartesian.py | 3 ++-
 src/harmonica/_equivalent_sources/spherical.py | 4 +++-
 src/harmonica/_forward/dipole.py               | 4 +++-
 src/harmonica/_forward/ellipsoids/gravity.py   | 4 +++-
 src/harmonica/_forward/ellipsoids/magnetic.py  | 4 +++-
 src/harmonica/_forward/point.py                | 4 +++-
 src/harmonica/_forward/prisms/gravity.py       | 4 +++-
 src/harmonica/_forward/prisms/layer.py         | 4 +++-
 src/harmonica/_forward/prisms/magnetic.py      | 4 +++-
 src/harmonica/_forward/tesseroid_gravity.py    | 4 +++-
 src/harmonica/_spherical_harmonics/igrf.py     | 4 +++-
 11 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1340f7b..1dc8a0c 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -375,7 +375,8 @@ class EquivalentSources(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         coordinates = tuple(
-            np.atleast_1d(i.astype(self.dtype)).ravel() for i in coordinates[:3]
+            np.atleast_1d(i.astype(self.dtype)).ravel()
+            for i in np.broadcast_arrays(*coordinates[:3])
         )
         data = np.zeros(size, dtype=self.dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index 606311b..bb23d1e 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -241,7 +241,9 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
         dtype = coordinates[0].dtype
-        coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+        coordinates = tuple(
+            np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+        )
         data = np.zeros(size, dtype=dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 8925450..6601d61 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -105,7 +105,9 @@ def dipole_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, dipoles and magnetic moments to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     dipoles = tuple(np.atleast_1d(i).ravel() for i in dipoles[:3])
     magnetic_moments = tuple(np.atleast_1d(m).ravel() for m in magnetic_moments)
     # Sanity checks
diff --git a/src/harmonica/_forward/ellipsoids/gravity.py b/src/harmonica/_forward/ellipsoids/gravity.py
index b3baaa9..577b345 100644
--- a/src/harmonica/_forward/ellipsoids/gravity.py
+++ b/src/harmonica/_forward/ellipsoids/gravity.py
@@ -76,7 +76,9 @@ def ellipsoid_gravity(
     cast = np.broadcast(*coordinates)
 
     # Ravel coordinates into 1d arrays
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate arrays
     ge, gn, gu = tuple(np.zeros(easting.size) for _ in range(3))
diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 9096ee9..1aeee83 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -78,7 +78,9 @@ def ellipsoid_magnetic(
 
     # Flatten coordinates
     cast = np.broadcast(*coordinates)
-    easting, northing, upward = tuple(np.atleast_1d(c).ravel() for c in coordinates)
+    easting, northing, upward = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+    )
 
     # Allocate output arrays
     be, bn, bu = tuple(np.zeros_like(easting, dtype=np.float64) for _ in range(3))
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 619e11b..54b8d11 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -235,7 +235,9 @@ def point_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Prepare arrays to be passed to the jitted functions
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     points = tuple(np.atleast_1d(i).ravel() for i in points[:3])
     masses = np.atleast_1d(masses).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/gravity.py b/src/harmonica/_forward/prisms/gravity.py
index ee64393..7efb54e 100644
--- a/src/harmonica/_forward/prisms/gravity.py
+++ b/src/harmonica/_forward/prisms/gravity.py
@@ -200,7 +200,9 @@ def prism_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, prisms and density to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     density = np.atleast_1d(density).ravel()
     # Sanity checks
diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 62ad43b..0aca3a3 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -383,7 +383,9 @@ class DatasetAccessorPrismLayer:
 
         # Ravel coordinates to 1D
         cast = np.broadcast(*coordinates[:3])
-        coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+        coordinates = tuple(
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+        )
 
         # Determine parallel or serial forward modelling function
         numba_function = (
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 43fc5e3..5aa51a5 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -108,7 +108,9 @@ def prism_magnetic(
     # Figure out the shape and size of the output array(s)
     cast = np.broadcast(*coordinates[:3])
     # Convert coordinates, prisms and magnetization to arrays with proper shape
-    coordinates = tuple(np.atleast_1d(c).ravel() for c in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates[:3])
+    )
     prisms = np.atleast_2d(prisms)
     magnetization = tuple(np.atleast_1d(m).ravel() for m in magnetization)
     # Sanity checks
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index 66acebb..ea73857 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -167,7 +167,9 @@ def tesseroid_gravity(
     cast = np.broadcast(*coordinates[:3])
     result = np.zeros(cast.size, dtype=dtype)
     # Convert coordinates, tesseroids and density to arrays
-    coordinates = tuple(np.atleast_1d(i).ravel() for i in coordinates[:3])
+    coordinates = tuple(
+        np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
+    )
     tesseroids = np.atleast_2d(tesseroids)
     # Sanity checks for tesseroids and computation points
     if not disable_checks:
diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 42b1331..78e7462 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -350,7 +350,9 @@ class IGRF14:
             shape as the coordinate arrays. All are in nT.
         """
         cast = np.broadcast(*coordinates[:3])
-        longitude, latitude, height = (np.atleast_1d(c).ravel() for c in coordinates)
+        longitude, latitude, height = (
+            np.atleast_1d(c).ravel() for c in np.broadcast_arrays(*coordinates)
+        )
         longitude, latitude_sph, radius = self.ellipsoid.geodetic_to_spherical(
             (longitude, latitude, height)
         )
-- 
2.43.0


From 7c3f7e7d97bb456e1c14416c980cc52060e1e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 05/23] fix: predict floating point data on integer coordinates
 in EquivalentSourcesSph

---
 src/harmonica/_equivalent_sources/spherical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index bb23d1e..f63abd2 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -240,10 +240,11 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         check_is_fitted(self, ["coefs_"])
         shape = np.broadcast(*coordinates[:3]).shape
         size = np.broadcast(*coordinates[:3]).size
-        dtype = coordinates[0].dtype
         coordinates = tuple(
             np.atleast_1d(i).ravel() for i in np.broadcast_arrays(*coordinates[:3])
         )
+        # Make sure the output is floating point even for integer coordinates
+        dtype = np.result_type(coordinates[0].dtype, np.float32)
         data = np.zeros(size, dtype=dtype)
         kernel = predict_numba_parallel if self.parallel else predict_numba_serial
         kernel(coordinates, self.points_, self.coefs_, data, self.greens_function)
-- 
2.43.0


From 439716d9b62cd1261dd467fcec26cd62d8cc12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 06/23] fix: check every component of sources and
 magnetizations in the forward models

Only the size of the first component was checked, so the compiled loops read
out of bounds when another one was shorter.
---
 src/harmonica/_forward/dipole.py          | 13 ++++++++++---
 src/harmonica/_forward/point.py           |  5 +++++
 src/harmonica/_forward/prisms/magnetic.py | 11 ++++++-----
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/dipole.py b/src/harmonica/_forward/dipole.py
index 6601d61..5e29ebc 100644
--- a/src/harmonica/_forward/dipole.py
+++ b/src/harmonica/_forward/dipole.py
@@ -283,12 +283,19 @@ def _check_dipoles_and_magnetic_moments(dipoles, magnetic_moments):
             " Magnetic moments vectors should have 3 components."
         )
         raise ValueError(msg)
-    if magnetic_moments[0].size != dipoles[0].size:
+    if len({c.size for c in dipoles}) > 1:
         msg = (
-            f"Number of elements in magnetic_moments ({magnetic_moments[0].size})"
-            f" mismatch the number of dipoles ({dipoles[0].size})."
+            "The coordinates of the dipoles must have the same number of elements."
+            f" Got arrays with {tuple(c.size for c in dipoles)} elements."
         )
         raise ValueError(msg)
+    for component in magnetic_moments:
+        if component.size != dipoles[0].size:
+            msg = (
+                f"Number of elements in magnetic_moments ({component.size})"
+                f" mismatch the number of dipoles ({dipoles[0].size})."
+            )
+            raise ValueError(msg)
 
 
 def _jit_dipole_magnetic_field_cartesian(
diff --git a/src/harmonica/_forward/point.py b/src/harmonica/_forward/point.py
index 54b8d11..47472db 100644
--- a/src/harmonica/_forward/point.py
+++ b/src/harmonica/_forward/point.py
@@ -246,6 +246,11 @@ def point_gravity(
             f"Number of elements in masses ({masses.size}) "
             + f"mismatch the number of points ({points[0].size})"
         )
+    if len({c.size for c in points}) > 1:
+        raise ValueError(
+            "The coordinates of the points must have the same number of elements. "
+            + f"Got arrays with {tuple(c.size for c in points)} elements."
+        )
     # Compute gravitational field
     kernel = get_kernel(coordinate_system, field)
     dispatcher(coordinate_system, parallel)(
diff --git a/src/harmonica/_forward/prisms/magnetic.py b/src/harmonica/_forward/prisms/magnetic.py
index 5aa51a5..23c49ae 100644
--- a/src/harmonica/_forward/prisms/magnetic.py
+++ b/src/harmonica/_forward/prisms/magnetic.py
@@ -451,11 +451,12 @@ def _run_sanity_checks(prisms, magnetization):
             f"Invalid magnetization vectors with '{size}' elements. "
             + "Magnetization vectors should have only 3 elements."
         )
-    if magnetization[0].size != prisms.shape[0]:
-        raise ValueError(
-            f"Number of magnetization vectors ({magnetization[0].size}) "
-            + f"mismatch the number of prisms ({prisms.shape[0]})"
-        )
+    for component in magnetization:
+        if component.size != prisms.shape[0]:
+            raise ValueError(
+                f"Number of magnetization vectors ({component.size}) "
+                + f"mismatch the number of prisms ({prisms.shape[0]})"
+            )
     check_prisms(prisms)
 
 
-- 
2.43.0


From bb10c1272ae9b424bfdf85b189ac584dc0cfc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 07/23] fix: split tesseroids wider than half a turn along
 longitude

The longitudinal dimension used by the adaptive discretization shrinks for
widths over 180 degrees and is zero for a full turn, so wide tesseroids were
not split (or raised a division by zero).
---
 src/harmonica/_forward/_tesseroid_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_utils.py b/src/harmonica/_forward/_tesseroid_utils.py
index 073fa05..df1aa2a 100644
--- a/src/harmonica/_forward/_tesseroid_utils.py
+++ b/src/harmonica/_forward/_tesseroid_utils.py
@@ -268,8 +268,11 @@ def _tesseroid_dimensions(tesseroid):
     w, e, s, n = np.radians(w), np.radians(e), np.radians(s), np.radians(n)
     latitude_center = (n + s) / 2
     l_lat = top * np.arccos(np.sin(n) * np.sin(s) + np.cos(n) * np.cos(s))
+    # The great-circle distance between the meridians decreases for tesseroids that
+    # cover more than half a turn (and is null for a full turn), so limit the angle.
+    d_lon = min(e - w, np.pi)
     l_lon = top * np.arccos(
-        np.sin(latitude_center) ** 2 + np.cos(latitude_center) ** 2 * np.cos(e - w)
+        np.sin(latitude_center) ** 2 + np.cos(latitude_center) ** 2 * np.cos(d_lon)
     )
     l_rad = top - bottom
     return l_lon, l_lat, l_rad
-- 
2.43.0


From 98c6b2340f04e580e8a1381f52c150a5aea166df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 08/23] fix: ignore null tesseroids when the density is a
 function

---
 src/harmonica/_forward/_tesseroid_variable_density.py | 2 +-
 src/harmonica/_forward/tesseroid_gravity.py           | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/_tesseroid_variable_density.py b/src/harmonica/_forward/_tesseroid_variable_density.py
index e91844e..1175cde 100644
--- a/src/harmonica/_forward/_tesseroid_variable_density.py
+++ b/src/harmonica/_forward/_tesseroid_variable_density.py
@@ -142,7 +142,7 @@ def density_based_discretization(tesseroids, density):
     discretized_tesseroids = []
     for tesseroid in tesseroids:
         discretized_tesseroids.extend(_density_based_discretization(tesseroid, density))
-    return np.atleast_2d(discretized_tesseroids)
+    return np.array(discretized_tesseroids).reshape(-1, 6)
 
 
 def _density_based_discretization(tesseroid, density):
diff --git a/src/harmonica/_forward/tesseroid_gravity.py b/src/harmonica/_forward/tesseroid_gravity.py
index ea73857..15256b6 100644
--- a/src/harmonica/_forward/tesseroid_gravity.py
+++ b/src/harmonica/_forward/tesseroid_gravity.py
@@ -177,6 +177,10 @@ def tesseroid_gravity(
         check_points_outside_tesseroids(coordinates, tesseroids)
     # Check if density is a function or constant values
     if callable(density):
+        # Discard null tesseroids (zero volume)
+        tesseroids, _ = _discard_null_tesseroids(
+            tesseroids, np.ones(tesseroids.shape[0])
+        )
         # Run density-based discretization on each tesseroid
         tesseroids = density_based_discretization(tesseroids, density)
     else:
-- 
2.43.0


From 5e3d618764a8b8a55bbb4e3bf2802ad1ca18ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 09/23] fix: do not truncate surface or reference in layers
 when their dtypes differ

---
 src/harmonica/_forward/prisms/layer.py    | 7 +++----
 src/harmonica/_forward/tesseroid_layer.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 0aca3a3..54de967 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -303,11 +303,10 @@ class DatasetAccessorPrismLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Use np.where so the boundaries have a dtype that can hold both surfaces
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 5aefea7..189802a 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -311,11 +311,10 @@ class DatasetAccessorTesseroidLayer:
                 )
         else:
             reference = reference * np.ones(self.shape)
-        top = surface.copy()
-        bottom = reference.copy()
+        # Use np.where so the boundaries have a dtype that can hold both surfaces
         reverse = surface < reference
-        top[reverse] = reference[reverse]
-        bottom[reverse] = surface[reverse]
+        top = np.where(reverse, reference, surface)
+        bottom = np.where(reverse, surface, reference)
         self._obj.coords["top"] = (self.dims, top)
         self._obj.coords["bottom"] = (self.dims, bottom)
 
-- 
2.43.0


From 2ccdf1bb0c5cf11cab95dd58d32b5c4b8e7a022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 10/23] fix: support decreasing coordinates in prism and
 tesseroid layers

The boundaries of the prisms were swapped, which inverted the sign of their
gravity field without raising any error.
---
 src/harmonica/_forward/prisms/layer.py    | 7 ++++---
 src/harmonica/_forward/tesseroid_layer.py | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 54de967..55d20ff 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -196,7 +196,8 @@ class DatasetAccessorPrismLayer:
         """
         easting, northing = self._obj.easting.values, self._obj.northing.values
         _check_regular_grid(easting, northing)
-        s_north, s_east = northing[1] - northing[0], easting[1] - easting[0]
+        # Coordinates might be in decreasing order
+        s_north, s_east = abs(northing[1] - northing[0]), abs(easting[1] - easting[0])
         return s_north, s_east
 
     @property
@@ -582,8 +583,8 @@ def _forward_gravity_prism_layer(
     """
     easting, northing, upward = coordinates
     n_coords = easting.size
-    half_spacing_east = (prisms_easting[1] - prisms_easting[0]) / 2
-    half_spacing_north = (prisms_northing[1] - prisms_northing[0]) / 2
+    half_spacing_east = abs(prisms_easting[1] - prisms_easting[0]) / 2
+    half_spacing_north = abs(prisms_northing[1] - prisms_northing[0]) / 2
 
     # Check if we need to update the progressbar on each iteration
     update_progressbar = progress_proxy is not None
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 189802a..928f392 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -171,7 +171,7 @@ def _check_overlap(longitude):
     """
     Check if the prisms boundaries are overlapped.
     """
-    spacing = longitude[1] - longitude[0]
+    spacing = abs(longitude[1] - longitude[0])
     if longitude.max() - longitude.min() >= 360 - spacing:
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
@@ -223,7 +223,9 @@ class DatasetAccessorTesseroidLayer:
         """
         latitude, longitude = self._obj.latitude.values, self._obj.longitude.values
         _check_regular_grid(longitude, latitude)
-        s_latitude, s_longitude = latitude[1] - latitude[0], longitude[1] - longitude[0]
+        # Coordinates might be in decreasing order
+        s_latitude = abs(latitude[1] - latitude[0])
+        s_longitude = abs(longitude[1] - longitude[0])
         return s_latitude, s_longitude
 
     @property
-- 
2.43.0


From bd5388a623efd9ea3eae1e6b9a5831ec8d53e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 11/23] fix: ignore prisms without volume in the gravity field
 of prism layers

Their fields are undefined (nan) on observation points located on their edges.
---
 src/harmonica/_forward/prisms/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 55d20ff..5eca852 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -599,9 +599,9 @@ def _forward_gravity_prism_layer(
                 if density == 0.0 or np.isnan(density):
                     continue
 
-                # Ignore thin prisms
+                # Ignore thin prisms and prisms without volume
                 bottom, top = prisms_bottom[k, j], prisms_top[k, j]
-                if top - bottom < thickness_threshold:
+                if top - bottom < thickness_threshold or top == bottom:
                     continue
 
                 # Ignore prisms with nan top or bottom
-- 
2.43.0


From cd0228dc8201e7b38bff37a4a6cf6ac8a29165e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 12/23] fix: accept tesseroid layers that cover exactly one
 turn around the globe

---
 src/harmonica/_forward/tesseroid_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index 928f392..ec80f41 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -172,7 +172,9 @@ def _check_overlap(longitude):
     Check if the prisms boundaries are overlapped.
     """
     spacing = abs(longitude[1] - longitude[0])
-    if longitude.max() - longitude.min() >= 360 - spacing:
+    # Tesseroids that cover exactly one turn around the globe don't overlap
+    span = longitude.max() - longitude.min() + spacing
+    if span > 360 and not np.isclose(span, 360, rtol=1e-9):
         msg = (
             "Found invalid longitude coordinates that would create overlapping "
             "tesseroids around the globe."
-- 
2.43.0


From a07595f28572bcb3053729a969af873c6d129419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 13/23] fix: keep the values in place when transforming grids
 with decreasing coordinates

The inverse Fourier transform returns increasing coordinates, so the values
were flipped when the original (decreasing) ones were restored.
---
 src/harmonica/filters/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 01bbfe2..4a8356e 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -99,6 +99,10 @@ def apply_filter(
     # Keep only the real part since the inverse transform returns complex
     # number by default
     filtered_grid = ifft(filtered_fft_grid).real
+    # The inverse transform always returns increasing coordinates: put the
+    # values back in the order of the original grid
+    decreasing = [d for d in dims if grid[d][-1] < grid[d][0]]
+    filtered_grid = filtered_grid.isel({d: slice(None, None, -1) for d in decreasing})
     if pad:
         filtered_grid = xrft.unpad(filtered_grid, pad_kwargs["pad_width"])
     # Restore the original coordinates to the grid because the inverse
-- 
2.43.0


From 7280c5ba9f7f3ec324eb77167a0df5bba502dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 14/23] fix: transform grids with less than four nodes along a
 direction

The default padding of 25% is null for them, which xrft.pad does not support.
---
 src/harmonica/filters/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/filters/_utils.py b/src/harmonica/filters/_utils.py
index 4a8356e..65ddb8e 100644
--- a/src/harmonica/filters/_utils.py
+++ b/src/harmonica/filters/_utils.py
@@ -84,7 +84,10 @@ def apply_filter(
         # Fedi et al. (2012; doi:10.1111/j.1365-246X.2011.05259.x) suggest
         # a padding of 100% but that seems exaggerated.
         if "pad_width" not in pad_kwargs:
-            pad_kwargs["pad_width"] = {d: int(0.25 * grid[d].size) for d in dims}
+            # (dimensions that are too small to be padded are left as they are)
+            pad_kwargs["pad_width"] = {
+                d: width for d in dims if (width := int(0.25 * grid[d].size)) > 0
+            }
         if "mode" not in pad_kwargs:
             pad_kwargs["mode"] = "edge"
         if "constant_values" not in pad_kwargs:
-- 
2.43.0


From 46b9179d6a1c8da9fe72c1aaca8beebd8d5508e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 15/23] fix: memory estimate of equivalent sources uses the
 given points

EquivalentSources and EquivalentSourcesGB ignored the points given by the
user when estimating the memory of the Jacobian. The gradient boosted ones
also replaced the sources of an already fitted gridder.
---
 .../_equivalent_sources/cartesian.py          |  7 +++--
 .../_equivalent_sources/gradient_boosted.py   | 26 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/cartesian.py b/src/harmonica/_equivalent_sources/cartesian.py
index 1dc8a0c..c8e5884 100644
--- a/src/harmonica/_equivalent_sources/cartesian.py
+++ b/src/harmonica/_equivalent_sources/cartesian.py
@@ -222,9 +222,12 @@ class EquivalentSources(vdb.BaseGridder):
         >>> int(n_bytes)
         80000
         """
-        # Build the sources and assign the points_ attribute
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
+        # Build the sources or use the ones given by the user
+        if self.points is None:
+            points = self._build_points(coordinates)
+        else:
+            points = vdb.n_1d_arrays(self.points, 3)
         # Get the number of sources and data
         n_data = coordinates[0].size
         n_points = points[0].size
diff --git a/src/harmonica/_equivalent_sources/gradient_boosted.py b/src/harmonica/_equivalent_sources/gradient_boosted.py
index ab522e3..11e60c7 100644
--- a/src/harmonica/_equivalent_sources/gradient_boosted.py
+++ b/src/harmonica/_equivalent_sources/gradient_boosted.py
@@ -171,12 +171,15 @@ class EquivalentSourcesGB(EquivalentSources):
         >>> int(n_bytes)
         10952
         """
-        # Build the sources and assign the points_ attribute
         coordinates = vdb.n_1d_arrays(coordinates, 3)
-        points = self._build_points(coordinates)
-        self.points_ = points
-        # Build the windows and get the indices
-        source_windows, data_windows = self._create_windows(coordinates)
+        # Build the sources or use the ones given by the user
+        if self.points is None:
+            points = self._build_points(coordinates)
+        else:
+            points = vdb.n_1d_arrays(self.points, 3)
+        # Build the windows and get the indices (without touching the sources of
+        # a gridder that was already fitted)
+        source_windows, data_windows = self._create_windows(coordinates, points=points)
         # Get the number of sources and data for each window
         source_sizes = np.array([w.size for w in source_windows])
         data_sizes = np.array([w.size for w in data_windows])
@@ -292,7 +295,7 @@ class EquivalentSourcesGB(EquivalentSources):
             self.coefs_[point_window] += coeffs_chunk
         self.rmse_per_iteration_ = np.array(errors)
 
-    def _create_windows(self, coordinates, shuffle=True):
+    def _create_windows(self, coordinates, shuffle=True, points=None):
         """
         Create indices of sources and data points for each overlapping window.
 
@@ -306,6 +309,9 @@ class EquivalentSourcesGB(EquivalentSources):
             highly recommended to enable shuffling for better fitting results.
             This argument is mainly included for testing purposes. Default to
             True.
+        points : tuple or None
+            Arrays with the coordinates of the sources. If None, the sources of
+            the fit (``points_``) are used.
 
         Returns
         -------
@@ -320,8 +326,10 @@ class EquivalentSourcesGB(EquivalentSources):
             shuffled if ``shuffle_windows`` is True, although the order of the
             windows is the same as the one in ``source_windows_nonempty``.
         """
+        if points is None:
+            points = self.points_
         # Get the region that contains every data point and every source
-        region = _get_region_data_sources(coordinates, self.points_)
+        region = _get_region_data_sources(coordinates, points)
         # Calculate the window size such that there are approximately 5000 data
         # points in each window. Otherwise use the given window size.
         if self.window_size == "default":
@@ -333,7 +341,7 @@ class EquivalentSourcesGB(EquivalentSources):
                     "Only one window will be used.",
                     stacklevel=1,
                 )
-                source_windows_nonempty = [np.arange(self.points_[0].size)]
+                source_windows_nonempty = [np.arange(points[0].size)]
                 data_windows_nonempty = [np.arange(ndata)]
                 self.window_size_ = None
                 return source_windows_nonempty, data_windows_nonempty
@@ -353,7 +361,7 @@ class EquivalentSourcesGB(EquivalentSources):
             "window_size": self.window_size_,
             "overlap": self.overlapping,
         }
-        _, source_windows = bd.rolling_window(self.points_[:2], **kwargs)
+        _, source_windows = bd.rolling_window(points[:2], **kwargs)
         _, data_windows = bd.rolling_window(coordinates[:2], **kwargs)
         # Ravel the indices
         source_windows = [i[0] for i in source_windows.ravel()]
-- 
2.43.0


From 97e7e06cfdff4b9752551d80b10a22d53f814fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 16/23] fix: solve for the magnetization of ellipsoids with the
 right matrix

The self-demagnetization system is (I + chi N) M = chi H0 + Mr, as the
docstring says. The matrix had N chi instead, which is not the same for a
susceptibility tensor that is not diagonal.
---
 src/harmonica/_forward/ellipsoids/magnetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/magnetic.py b/src/harmonica/_forward/ellipsoids/magnetic.py
index 1aeee83..3b5fbca 100644
--- a/src/harmonica/_forward/ellipsoids/magnetic.py
+++ b/src/harmonica/_forward/ellipsoids/magnetic.py
@@ -287,7 +287,7 @@ def get_magnetisation(
     if n_tensor is None:
         n_tensor = get_demagnetization_tensor_internal(a, b, c)
     eye = np.identity(3)
-    lhs = eye + n_tensor @ susceptibility
+    lhs = eye + susceptibility @ n_tensor
     rhs = remnant_mag + susceptibility @ h0_field
     m = np.linalg.solve(lhs, rhs)
     return m
-- 
2.43.0


From 029c149d0b5d3920cc60f90703229f7f99048ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 17/23] fix: predict the IGRF on arrays with a single point

The field was cast to floats whenever there is one point, which fails for
arrays of one element. Only numbers have to give numbers.
---
 src/harmonica/_spherical_harmonics/igrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_spherical_harmonics/igrf.py b/src/harmonica/_spherical_harmonics/igrf.py
index 78e7462..b79a54e 100644
--- a/src/harmonica/_spherical_harmonics/igrf.py
+++ b/src/harmonica/_spherical_harmonics/igrf.py
@@ -382,7 +382,7 @@ class IGRF14:
                 latitude, latitude_sph, (b_east, b_north_sph, b_radial)
             )
         )
-        if n_data == 1:
+        if cast.shape == ():
             b_vector = tuple(float(c) for c in b_vector)
         return b_vector
 
-- 
2.43.0


From 2e6d403cd5bd485cf5a1f512d9e34634d2da88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 18/23] fix: keep Legendre functions of degree zero inside of
 their arrays

The normalized functions and their derivatives wrote the values of degree
one even if the maximum degree is zero, out of the bounds of the arrays.
---
 .../_spherical_harmonics/legendre.py          | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/harmonica/_spherical_harmonics/legendre.py b/src/harmonica/_spherical_harmonics/legendre.py
index d93c339..8ab235e 100644
--- a/src/harmonica/_spherical_harmonics/legendre.py
+++ b/src/harmonica/_spherical_harmonics/legendre.py
@@ -166,9 +166,10 @@ def associated_legendre_schmidt(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0]
+    if max_degree > 0:
+        p[1, 0] = x * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = (2 * n - 1) / (sqrt[n] ** 2)
@@ -235,8 +236,9 @@ def associated_legendre_schmidt_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
@@ -291,9 +293,10 @@ def associated_legendre_full(x, max_degree, p):
     # Use the Holmes and Featherstone (2002) scaling to compute scaled Pnm
     # All terms are scaled by the max float range 1e280
     p[0, 0] = 1 * 1e-280
-    p[1, 0] = x * sqrt[3] * 1e-280
-    # This equation doesn't have u because of the scaling
-    p[1, 1] = p[0, 0] * sqrt[3]
+    if max_degree > 0:
+        p[1, 0] = x * sqrt[3] * 1e-280
+        # This equation doesn't have u because of the scaling
+        p[1, 1] = p[0, 0] * sqrt[3]
     # Calculate the zero order terms first
     for n in range(2, max_degree + 1):
         a_n0 = sqrt[2 * n - 1] * sqrt[2 * n + 1] / n
@@ -362,8 +365,9 @@ def associated_legendre_full_derivative(max_degree, p, dp):
     # Pre-compute square roots of integers used in the loops
     sqrt = np.sqrt(np.arange(2 * (max_degree + 1)))
     dp[0, 0] = 0
-    dp[1, 0] = -p[1, 1]
-    dp[1, 1] = p[1, 0]
+    if max_degree > 0:
+        dp[1, 0] = -p[1, 1]
+        dp[1, 1] = p[1, 0]
     for n in range(2, max_degree + 1):
         a_nm = -sqrt[n] * sqrt[n + 1] / sqrt[2]
         dp[n, 0] = a_nm * p[n, 1]
-- 
2.43.0


From 22d5dc7834b15b19345e4f207ee278824dc5629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 19/23] fix: keep the units of the columns read from ICGEM
 files

With usecols, the names of the columns left out were dropped from the
metadata but their units were not, so units belonged to other columns.
---
 src/harmonica/_io/icgem_gdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/harmonica/_io/icgem_gdf.py b/src/harmonica/_io/icgem_gdf.py
index 4425d33..80f56d2 100644
--- a/src/harmonica/_io/icgem_gdf.py
+++ b/src/harmonica/_io/icgem_gdf.py
@@ -124,7 +124,8 @@ def _read_gdf_file(fname, **kwargs):
     _check_gdf_integrity(metadata)
     # Remove column names from the metadata if they weren't read
     if kwargs.get("usecols") is not None:
-        metadata["attributes"] = [metadata["attributes"][i] for i in kwargs["usecols"]]
+        for key in ("attributes", "attributes_units"):
+            metadata[key] = [metadata[key][i] for i in kwargs["usecols"]]
     if len(metadata["attributes"]) != rawdata.shape[0]:
         msg = "Number of attributes ({}) and data columns ({}) mismatch".format(
             len(metadata["attributes"]), rawdata.shape[0]
-- 
2.43.0


From b79b8d2d110c1a69b743086f56dead7b4dff9f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 20/23] fix: refuse Oasis montaj grids with unknown types of
 elements

Combinations of element size and sign flag that don't exist failed with an
UnboundLocalError instead of the NotImplementedError of other unsupported
headers.
---
 src/harmonica/_io/oasis_montaj_grd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/harmonica/_io/oasis_montaj_grd.py b/src/harmonica/_io/oasis_montaj_grd.py
index 3570874..b15531f 100644
--- a/src/harmonica/_io/oasis_montaj_grd.py
+++ b/src/harmonica/_io/oasis_montaj_grd.py
@@ -262,6 +262,7 @@ def _get_data_type(n_bytes_per_element, sign_flag):
     if n_bytes_per_element > 1024:
         n_bytes_per_element -= 1024
     # Determine the data type of the grid elements
+    data_type = None
     if n_bytes_per_element == 1:
         if sign_flag == 0:  # pragma: no cover
             data_type = "B"  # unsigned char
@@ -281,6 +282,12 @@ def _get_data_type(n_bytes_per_element, sign_flag):
             data_type = "f"  # float
     elif n_bytes_per_element == 8:  # pragma: no cover
         data_type = "d"
+    if data_type is None:
+        msg = (
+            f"Found a sign flag of '{sign_flag}' with grid elements of "
+            f"{n_bytes_per_element} bytes. This combination is not supported."
+        )
+        raise NotImplementedError(msg)
     return data_type
 
 
-- 
2.43.0


From 8510917a7dc35512c9fe0c6deb83cf71e66e7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 21/23] fix: use the values of layers in the order of their
 dimensions

The values of properties, top and bottom of a layer were used in memory
order. A transposed layer (or property) silently assigned densities and
heights to the wrong prisms or tesseroids and read out of bounds.
---
 src/harmonica/_forward/prisms/layer.py    | 24 +++++++++++++++--------
 src/harmonica/_forward/tesseroid_layer.py | 24 +++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/harmonica/_forward/prisms/layer.py b/src/harmonica/_forward/prisms/layer.py
index 5eca852..1b66a08 100644
--- a/src/harmonica/_forward/prisms/layer.py
+++ b/src/harmonica/_forward/prisms/layer.py
@@ -244,6 +244,14 @@ class DatasetAccessorPrismLayer:
         """
         return (self._obj.northing.size, self._obj.easting.size)
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable in the order of the layer dimensions.
+
+        The variables of the Dataset might have their dimensions in any order.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _get_prism_horizontal_boundaries(self, easting, northing):
         """
         Compute the horizontal boundaries of the prism.
@@ -398,7 +406,7 @@ class DatasetAccessorPrismLayer:
         thickness_threshold = (
             0.0 if thickness_threshold is None else thickness_threshold
         )
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         if np.isnan(density).any():
             msg = (
                 "Found NaN values in 'density' property of the prisms layer. "
@@ -414,8 +422,8 @@ class DatasetAccessorPrismLayer:
                 coordinates,
                 self._obj.easting.values,
                 self._obj.northing.values,
-                self._obj.bottom.values,
-                self._obj.top.values,
+                self._get_values("bottom"),
+                self._get_values("top"),
                 density,
                 FIELDS[field],
                 result,
@@ -452,8 +460,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             easting.ravel(), northing.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         prisms = np.vstack((west, east, south, north, bottom, top)).T
         return prisms
 
@@ -480,8 +488,8 @@ class DatasetAccessorPrismLayer:
         west, east, south, north = self._get_prism_horizontal_boundaries(
             center_easting, center_northing
         )
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return west, east, south, north, bottom, top
 
     def to_pyvista(self, drop_null_prisms=True):
@@ -513,7 +521,7 @@ class DatasetAccessorPrismLayer:
         properties = None
         if self._obj.data_vars:
             properties = {
-                data_var: np.asarray(self._obj[data_var]).ravel()[
+                data_var: self._get_values(data_var).ravel()[
                     np.logical_not(null_prisms)
                 ]
                 for data_var in self._obj.data_vars
diff --git a/src/harmonica/_forward/tesseroid_layer.py b/src/harmonica/_forward/tesseroid_layer.py
index ec80f41..efcd4c4 100644
--- a/src/harmonica/_forward/tesseroid_layer.py
+++ b/src/harmonica/_forward/tesseroid_layer.py
@@ -382,7 +382,7 @@ class DatasetAccessorTesseroidLayer:
         """
         # Get boundaries and density of the tesseroids
         boundaries = self._to_tesseroids()
-        density = self._obj[density_name].values
+        density = self._get_values(density_name)
         # Get the mask for selecting  only the tesseroid whose top boundary,
         # bottom boundary and density have no nans
         mask = self._get_nonans_mask(property_name=density_name)
@@ -406,6 +406,14 @@ class DatasetAccessorTesseroidLayer:
             **kwargs,
         )
 
+    def _get_values(self, name):
+        """
+        Return the values of a variable in the order of the layer dimensions.
+
+        The variables of the Dataset might have their dimensions in any order.
+        """
+        return self._obj[name].transpose(*self.dims).values
+
     def _get_nonans_mask(self, property_name=None):
         """
         Build a mask for tesseroid with no nans on top, bottom or a property.
@@ -426,12 +434,12 @@ class DatasetAccessorTesseroidLayer:
         """
         # Mask the tesseroid that contains no nans on top and bottom boundaries
         mask = np.logical_and(
-            np.logical_not(np.isnan(self._obj.top.values)),
-            np.logical_not(np.isnan(self._obj.bottom.values)),
+            np.logical_not(np.isnan(self._get_values("top"))),
+            np.logical_not(np.isnan(self._get_values("bottom"))),
         )
         # Mask the tesseroids that contains nans on the selected property
         if property_name is not None:
-            mask_property = np.logical_not(np.isnan(self._obj[property_name].values))
+            mask_property = np.logical_not(np.isnan(self._get_values(property_name)))
             # Warn if a nan is found within the masked property
             if not mask_property[mask].all():
                 warnings.warn(
@@ -466,8 +474,8 @@ class DatasetAccessorTesseroidLayer:
         ) = self._get_tesseroid_horizontal_boundaries(
             longitude.ravel(), latitude.ravel()
         )
-        bottom = self._obj.bottom.values.ravel()
-        top = self._obj.top.values.ravel()
+        bottom = self._get_values("bottom").ravel()
+        top = self._get_values("top").ravel()
         tesseroids = np.vstack(
             (longitude_w, longitude_e, latitude_s, latitude_n, bottom, top)
         ).T
@@ -518,8 +526,8 @@ class DatasetAccessorTesseroidLayer:
             latitude_s,
             latitude_n,
         ) = self._get_tesseroid_horizontal_boundaries(center_longitude, center_latitude)
-        bottom = self._obj.bottom.values[indices]
-        top = self._obj.top.values[indices]
+        bottom = self._get_values("bottom")[indices]
+        top = self._get_values("top")[indices]
         return longitude_w, longitude_e, latitude_s, latitude_n, bottom, top
 
 
-- 
2.43.0


From 585d8482dc7aed6983bff29545a8a7ce097802f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 22/23] fix: estimate the memory of the spherical Jacobian in
 double precision

---
 src/harmonica/_equivalent_sources/spherical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/harmonica/_equivalent_sources/spherical.py b/src/harmonica/_equivalent_sources/spherical.py
index f63abd2..1234c4d 100644
--- a/src/harmonica/_equivalent_sources/spherical.py
+++ b/src/harmonica/_equivalent_sources/spherical.py
@@ -170,8 +170,9 @@ class EquivalentSourcesSph(vdb.BaseGridder):
         n_points = points[0].size
         # Compute the size of the Jacobian matrix
         jacobian_size = n_data * n_points
-        # Estimate size of a single element of the Jacobian matrix in bytes
-        return jacobian_size * np.dtype(coordinates[0].dtype).itemsize
+        # Estimate size of a single element of the Jacobian matrix in bytes (it's always
+        # built with double precision, regardless of the dtype of the coordinates)
+        return jacobian_size * np.dtype("float64").itemsize
 
     def fit(self, coordinates, data, weights=None):
         """
-- 
2.43.0


From 95033d10496efdab3a928b77c579b5ead529fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 23/23] fix: reject semiaxes of ellipsoids that are not a
 number

---
 src/harmonica/_forward/ellipsoids/ellipsoids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/harmonica/_forward/ellipsoids/ellipsoids.py b/src/harmonica/_forward/ellipsoids/ellipsoids.py
index 25c365d..7a3c571 100644
--- a/src/harmonica/_forward/ellipsoids/ellipsoids.py
+++ b/src/harmonica/_forward/ellipsoids/ellipsoids.py
@@ -227,7 +227,7 @@ class Ellipsoid:
         semiaxis : {"a", "b", "c"}
             Semiaxis name. Used to generate the error message.
         """
-        if value <= 0:
+        if not value > 0:  # (also true for nan)
             msg = f"Invalid value of '{semiaxis}' equal to '{value}'. It must be positive."
             raise ValueError(msg)
 
-- 
2.43.0

