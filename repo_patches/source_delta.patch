From 933840394a9019d90a26ee40ea4e5ae1f7a548c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 01/75] fix: material ratio at a height is wrong when several
 curve points share one height

---
 surfalize/abbottfirestone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..0de8e17 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The heights are sorted in descending order. Reversing them instead of sorting keeps the material ratios of
+        # equal heights in order, which an unstable sort would shuffle.
+        self._smr_fit = interp1d(height[::-1], material_ratio[::-1], assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
-- 
2.43.0


From 0c740cf02ae7a2c62d4ac30a888c5feaafb116e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 02/75] fix: reduced peak height and dale depth are NaN when
 there are no peaks or dales above/below the core

---
 surfalize/abbottfirestone.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 0de8e17..8c7fc95 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -198,10 +198,14 @@ class AbbottFirestoneCurve(CachedInstance):
         # This way, we are losing or gaining a bit of area. In the future we might use some
         # additional interpolation. For now this is sufficient.
 
+        mr1 = self.mr1()
+        # The core reaches up to the highest point, so there are no hills to reduce
+        if mr1 == 0:
+            return 0.0
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
         idx = argclosest(self._yupper, self._height)
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
-        pk = 2 * A1 / self.mr1()
+        pk = 2 * A1 / mr1
         return pk
 
     @cache
@@ -213,10 +217,14 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
+        mr2 = self.mr2()
+        # The core reaches down to the lowest point, so there are no dales to reduce
+        if mr2 == 100:
+            return 0.0
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
-        vk = 2 * A2 / (100 - self.mr2())
+        vk = 2 * A2 / (100 - mr2)
         return vk
 
     @cache
-- 
2.43.0


From 7cf3c1f617667a5c6827cd5723599c931a90fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 03/75] fix: invert turns every point into a non-measured point
 when one is missing

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..d15d56b 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 3b543a651e550fb767a98e33437bec0d71c4a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 04/75] fix: equal surfaces with non-measured points or tiny
 height differences have different hashes

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..5c1c3ca 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -255,7 +255,9 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Equality tolerates tiny height differences and compares non-measured points by position, so the heights
+        # themselves cannot be part of the hash without violating that equal surfaces have equal hashes
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From 5a70a4d640d54b7e0535710315b0be7350a36d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 05/75] fix: cropped, zoomed, sliced and filled copies share
 memory with their source or stay read-only

---
 surfalize/profile.py | 6 +++---
 surfalize/surface.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 5c1c3ca..6f676ab 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -270,7 +270,7 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
@@ -509,7 +509,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
@@ -681,7 +681,7 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -715,7 +715,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 80058b8071a3b691df421886f9c35f6305e8bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 06/75] fix: stepheight_level returns the same cached object on
 every call

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 6f676ab..be0e790 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -770,7 +770,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From 752ee61a29e7567868b39609a1d6d30327cceb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 07/75] fix: surface returned by stepheight_level keeps the
 step mask of the unlevelled surface

---
 surfalize/surface.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index be0e790..aeb16fa 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -804,12 +804,7 @@ class Surface(BaseTopography):
         if inplace:
             self._set_data(data=leveled_data)
             return self
-        surface = Surface(leveled_data, self.step_x, self.step_y)
-        # This is not an ideal solution, but I can't think of a better one without major refactoring
-        # If the leveling is not done inplace, we need to somehow transfer the computed mask to the new objhect
-        # We are manually creating a cache entry for the new surface object so that we don't have to recompute the mask
-        surface.create_cache_entry(surface._stepheight_get_mask, mask, tuple(), dict())
-        return surface
+        return Surface(leveled_data, self.step_x, self.step_y)
 
     @cache
     def _stepheight_get_upper_lower_median(self):
-- 
2.43.0


From 3860899d6ad9ebdd2df554133a07f1b0479b161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 08/75] fix: stepheight and cavity_volume silently return NaN
 and 0 for surfaces with non-measured points

---
 surfalize/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index aeb16fa..85d491e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -824,6 +824,7 @@ class Surface(BaseTopography):
 
     @batch_method('parameter')
     @cache
+    @no_nonmeasured_points
     def stepheight(self):
         """
         Calculates the stepheight of two-level ablation experiment.
@@ -837,6 +838,7 @@ class Surface(BaseTopography):
         return step_height
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     def cavity_volume(self, threshold=0.50):
         """
         Calculates the cavity volume of a flat surface containing an ablation crater with a leveled bottom plane.
-- 
2.43.0


From 38543544a2d44896b86c11d432d1dc4087ffca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 09/75] fix: extracted profiles are taken from the wrong line,
 average the wrong lines or are NaN at the far edge

---
 surfalize/surface.py | 71 +++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 85d491e..c0e038e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -360,6 +360,33 @@ class Surface(BaseTopography):
         """
         return list(self.image_layers.keys())
 
+    @staticmethod
+    def _get_averaging_indices(position, step, n, average, average_step):
+        """
+        Calculates the indices of the parallel lines over which an axis-aligned profile is averaged.
+
+        Parameters
+        ----------
+        position : float
+            Position of the central line in µm.
+        step : float
+            Distance between two adjacent lines in µm.
+        n : int
+            Number of available lines.
+        average : int
+            Number of lines over which to average.
+        average_step : float | None
+            Distance in µm between the lines used for averaging.
+
+        Returns
+        -------
+        ndarray[int]
+        """
+        average_step_px = 1 if average_step is None else max(1, round(average_step / step))
+        idx = min(round(position / step), n - 1)
+        indices = idx + np.arange(-int(average / 2), int(average / 2) + 1) * average_step_px
+        return indices[(indices >= 0) & (indices < n)]
+
     def get_horizontal_profile(self, y, average=1, average_step=None):
         """
         Extracts a horizontal profile from the surface with optional averaging over parallel profiles.
@@ -381,23 +408,11 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
-            raise ValueError("y must not exceed height of surface.")
-        
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_y)
-
-        # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.y if idx_max > self.size.y else idx_max
-        data = self.data[idx_min:idx_max + 1:average_step_px].mean(axis=0)
+        if not 0 <= y <= self.height_um:
+            raise ValueError("y must lie between 0 and the height of the surface.")
+
+        indices = self._get_averaging_indices(y, self.step_y, self.size.y, average, average_step)
+        data = self.data[indices].mean(axis=0)
         return Profile(data, self.step_x, self.width_um)
     
     def get_vertical_profile(self, x, average=1, average_step=None):
@@ -421,23 +436,11 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
-            raise ValueError("x must not exceed height of surface.")
-        
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_x)
-
-        # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.x if idx_max > self.size.x else idx_max
-        data = self.data[:, idx_min:idx_max + 1:average_step_px].mean(axis=1)
+        if not 0 <= x <= self.width_um:
+            raise ValueError("x must lie between 0 and the width of the surface.")
+
+        indices = self._get_averaging_indices(x, self.step_x, self.size.x, average, average_step)
+        data = self.data[:, indices].mean(axis=1)
         return Profile(data, self.step_y, self.height_um)
 
     #TODO: implement averaging
-- 
2.43.0


From 3d1bcc50c4a6922995eb5d0bb4b88c790751ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 10/75] fix: oblique profiles do not follow the line between
 the given points

---
 surfalize/surface.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index c0e038e..803dab6 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -20,7 +20,7 @@ import scipy.ndimage as ndimage
 from .file import FileHandler
 from .utils import approximately_equal
 from .cache import cache
-from .mathutils import Sinusoid, trapezoid, otsu_threshold
+from .mathutils import Sinusoid, trapezoid, otsu_threshold, interpolate_line_on_2d_array
 from .autocorrelation import AutocorrelationFunction
 from .fourier import FourierTransform
 from .base import BaseTopography, batch_method, no_nonmeasured_points
@@ -468,28 +468,19 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
-
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if not (0 <= x0 <= self.width_um and 0 <= y0 <= self.height_um and
+                0 <= x1 <= self.width_um and 0 <= y1 <= self.height_um):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
-        dx = x1px - x0px
-        dy = y1px - y0px
-
-        size = int(np.hypot(dx, dy))
-
-        m = dy/dx
-        xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        x0px, x1px = np.clip([x0 / self.step_x, x1 / self.step_x], 0, self.size.x - 1)
+        y0px, y1px = np.clip([y0 / self.step_y, y1 / self.step_y], 0, self.size.y - 1)
 
-        data = ndimage.map_coordinates(self.data, [yp, xp])
+        # The profile has at least two points, namely the start- and endpoint
+        size = max(2, round(np.hypot(x1px - x0px, y1px - y0px)) + 1)
+        data = interpolate_line_on_2d_array(self.data, (y0px, x0px), (y1px, x1px), num_points=size)
 
-        length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        length_um = np.hypot(y1 - y0, x1 - x0)
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From 9d67209385b722c22a401f5bb4b32f86227d618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 11/75] fix: surface area mixes up the step sizes of x and y

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 803dab6..ac966aa 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -992,8 +992,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From 10946666afce13629a024c577adac635198a8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 12/75] fix: depth reads past the surface when the number of
 profiles minus one divides the size

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index ac966aa..c4486e9 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1559,11 +1559,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / max(nprofiles - 1, 1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / max(nprofiles - 1, 1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 04273013e8216b079f926576488c7342a7732528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 13/75] fix: periods of profiles with small heights are not
 found

---
 surfalize/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 63aed9f..2babefe 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -197,7 +197,7 @@ def get_period_fft_1d(xdata, ydata):
     """
     fft = np.abs(np.fft.fft(ydata))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
-    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=10)
+    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
     prominences = properties['prominences']
     # Sort in descending order by computing sorting indices
-- 
2.43.0


From 161bbab4786d5aeebee33e666b6a83f144bc0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 14/75] fix: compressed sur files written by surfalize cannot
 be loaded

---
 surfalize/file/sur.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..fba97a7 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,14 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    compressed_data = b''
+    compressed_data_size = 0
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # The size comprises the directory count (4 bytes), one directory (8 bytes) and the data stream
+        compressed_data_size = 4 + 8 + len(compressed_data)
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +430,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,8 +450,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From d18f9e1058b1d78f754561c977ce388df5cd0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 15/75] fix: sur export corrupts single precision data and
 surfaces of constant height with non-measured points

---
 surfalize/file/sur.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index fba97a7..3eb1b21 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -364,9 +364,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # Single precision cannot represent the integer range, so the maximum would overflow
+    data = surface.data.astype('float64')
+    data_max = np.nanmax(data)
+    data_min = np.nanmin(data)
+    # A surface of constant height has no range to normalize by
+    data_range = data_max - data_min if data_max > data_min else 1
+    data = ((data - data_min) / data_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From b13e161f7f2d556fca8b5feeb71f400e1c735d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 16/75] fix: sflz files with signed integer heights are decoded
 with the wrong offset

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..bd7026b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From d8afa616debfa6bdf7e9d11aa6f8ff0978aab890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 17/75] fix: sflz export loses surfaces with non-measured
 points and corrupts single precision data

---
 surfalize/file/sflz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bd7026b..e02440e 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -107,7 +107,11 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
     }
 
     dtype = np.dtype(dtype)
-    data = surface.data
+    if dtype.kind in ['i', 'u'] and surface.has_missing_points:
+        # Integers cannot represent non-measured points, therefore the heights are stored unscaled
+        dtype = np.dtype('<f8')
+    # Single precision cannot represent the entire range of the integer types, so the maximum would overflow
+    data = surface.data.astype('float64')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From 1d04a160d2a72e975876e2b4e0d6f7a6caa59f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 18/75] fix: sflz files with non-ascii image layer names cannot
 be loaded

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index e02440e..751586c 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -148,7 +148,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From 14b616266ca8b326ae764edac39041a364c68e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 19/75] fix: surfaces and image layers loaded from sflz are
 read-only

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 751586c..39c94af 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From 6b4a11c718ea2350b36e4da28abc19fbb7b46498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 20/75] fix: surfaces loaded from plux are read-only

---
 surfalize/file/plux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..812f5a9 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -42,7 +42,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = float(root.find('GENERAL/FOV_Y').text)
     size = shape_x * shape_y
 
-    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
+    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
     if read_image_layers:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
-- 
2.43.0


From 1ebda3f5b31d246ed417f7d9a5c550decddc0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 21/75] fix: plux files without image cannot be loaded with
 image layers requested

---
 surfalize/file/plux.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 812f5a9..1753612 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -16,6 +16,8 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
         data_raw = archive.read(TOPOGRAPHY_FILE_NAME)
         if read_image_layers and IMAGE_FILE_NAME in contents:
             img_raw = archive.read(IMAGE_FILE_NAME)
+        else:
+            img_raw = None
         xml_metadata = archive.read(XML_METADATA_FILE_NAME)
 
     xml_str = decode(xml_metadata, encoding)
@@ -44,7 +46,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
-    if read_image_layers:
+    if img_raw is not None:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From d877a43bbc2ac79b217fad3f77483bee0767e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 22/75] fix: tmd files with non-ascii comment cannot be loaded

---
 surfalize/file/tmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..f967741 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -36,11 +36,12 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
 
 @FileHandler.register_writer(suffix='.tmd')
 def write_tmd(filehandle, surface, encoding='utf-8', comment='Exported by surfalize'):
-    if len(comment) > COMMENT_LEN:
+    comment_len = len(comment.encode('utf-8'))
+    if comment_len > COMMENT_LEN:
         raise ValueError(f'Comment has too many characters. Maximum number allows is {COMMENT_LEN}')
     header = {
         'header': decode(MAGIC, encoding) + LINE_TERMINATION,
-        'comment': comment + ' ' * (COMMENT_LEN - len(comment)) + LINE_TERMINATION,
+        'comment': comment + ' ' * (COMMENT_LEN - comment_len) + LINE_TERMINATION,
         'width': surface.size.x,
         'height': surface.size.y,
         'length_x': surface.size.x * surface.step_x,
-- 
2.43.0


From d619e90aa97c2fedb815e523cb47cc1e35c74f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 23/75] fix: xyz reader underestimates the lateral spacing

---
 surfalize/file/xyz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..b0d00d4 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -16,10 +16,12 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     y = np.unique(raw_data[:,1])
     nx = x.size
     ny = y.size
+    if nx < 2 or ny < 2:
+        raise CorruptedFileError('The data points do not span an area.')
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
+    step_x = (x.max() - x.min()) / (nx - 1) * 10**6
+    step_y = (y.max() - y.min()) / (ny - 1) * 10**6
     data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From d8dab6c7c00422e28d6c26145957446df7812143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 24/75] fix: image layer of non-square nms files cannot be
 loaded

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From 65e26d5efc62f1fb8b7eeb02b100d9112b9200d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 25/75] fix: os3d files without image cannot be loaded with
 image layers requested

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From 01c8872a6f19276361a2d48f7f66c52136c84847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 26/75] fix: position of a buffer is lost when reading or
 writing it fails

---
 surfalize/file/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..275c794 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From d86cf84c0ad697e99bd48e7296a34a9dd63d3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 27/75] fix: files embedded in a buffer are read from its
 beginning when detected by their magic

---
 surfalize/file/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 275c794..e5161e9 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -485,7 +485,7 @@ class FileHandler:
                         warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
                                       f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
                                       f'correct. The file was now loaded as {reader._suffix}.')
-                    filehandle.seek(0, 0)
+                    filehandle.seek(-len(magic), 1)
                     return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
-- 
2.43.0


From 52b80cc676726d85fd063b5794cd5fae3f554dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 28/75] fix: buffers of a format without magic are not
 recognized without the right format

---
 surfalize/file/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index e5161e9..02fc579 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -490,13 +490,14 @@ class FileHandler:
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
         # reader that fails, so we also suppress any warnings the probed readers might emit on incompatible data.
+        indicated = self.file.suffix if self.is_path_like() else self.format
         for reader_suffix, reader in self._readers_by_suffix.items():
             try:
                 with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
+                warnings.warn(f'The file suffix indicates a file of type {indicated}. However, the file '
                               f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
                               f'correct. The file was now loaded as {reader_suffix}.')
                 return result
-- 
2.43.0


From b49b6fa2fe8164cdc218f3ae66838fa8c3dc9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 29/75] fix: format argument is ignored when saving to a path
 and suffixes are case-sensitive

---
 surfalize/file/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 02fc579..8759de8 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -510,10 +510,12 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
-            suffix = self.file.suffix
+        if self.format is not None:
+            suffix = self.format.lower()
+        elif self.is_path_like():
+            suffix = self.file.suffix.lower()
         else:
-            suffix = self.format
+            suffix = None
         if not suffix:
             raise ValueError('No format for the file specified.') from None
         if suffix not in self._writers:
-- 
2.43.0


From 84fdc0baa3da0c89e01967932b13d29f3ebe23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 30/75] fix: reading a fits file with a truncated header never
 ends

---
 surfalize/file/fits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..cb7b671 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,6 +1,6 @@
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'SIMPLE'
 BLOCKSIZE = 2880
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if len(block) < BLOCKSIZE:
+            raise CorruptedFileError('Unexpected end of file in the header.')
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From 9e4817b54032d033d27141d2c281fe1030fbfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 31/75] fix: fits layers following a layer which fills its
 blocks completely are lost

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index cb7b671..2e59577 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -94,7 +94,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From c4c133207eb45b93bed4068bfba88598af2bc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 32/75] fix: unit of the y-axis of fits files is ignored

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 2e59577..01e5663 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -111,7 +111,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
         mask = layers['MASK'].data.astype('bool')
         data[~mask] = np.nan
     x_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
-    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header['UNITX'], 'um')
+    y_factor = header['UnitMultiplicatorDeltas'] * get_unit_conversion(header.get('UNITY', header['UNITX']), 'um')
     z_factor = header['UnitMultiplicatorHeights'] * get_unit_conversion(header['UNITZ'], 'um')
     step_x = header['DELTAX'] * x_factor
     step_y = header['DELTAY'] * y_factor
-- 
2.43.0


From a2fbfaf92d6d6af90a356443ee03cf9157d75c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 33/75] fix: layers of fits files whose header exceeds one
 block are misread

---
 surfalize/file/fits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 01e5663..3d656f7 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -86,7 +86,8 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
     while True:
         block = filehandle.read(BLOCKSIZE)
         if block.startswith(b'XTENSION'):
-            hdu_header, has_ended = parse_header_block(decode(block, encoding))
+            filehandle.seek(-len(block), 1)
+            hdu_header = read_header(filehandle, encoding=encoding)
             if hdu_header['NAXIS'] != 2:
                 raise UnsupportedFileFormatError("Array with number of dimensions not equal to 2 detected.")
             datasize = hdu_header['NAXIS1'] * hdu_header['NAXIS2'] * int(abs(hdu_header['BITPIX'] / 8))
-- 
2.43.0


From a61a6e13ea668067648da7e82ab42023397af0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 34/75] fix: fits files with commentary lines or with slashes
 or equal signs in values cannot be loaded

---
 surfalize/file/fits.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 3d656f7..3bfa833 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from .common import RawSurface, get_unit_conversion, FileHandler, read_array, decode
 from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
@@ -42,11 +43,15 @@ def parse_header_block(block):
         if line == 'END':
             block_ended = True
             break
-        if '/' in line:
-            line = line.split('/')[0]
-        left, right = line.split('=')
+        left, separator, right = line.partition('=')
+        # Only lines with an equal sign hold a value, others are commentary, such as HISTORY
+        if not separator:
+            continue
         left = left.strip()
         right = right.strip()
+        # The comment starts at the first slash, unless the slash is part of a quoted string
+        string = re.match(r"'(?:[^']|'')*'", right)
+        right = string.group() if string else right.split('/')[0].strip()
         if left.startswith('HIERARCH'):
             left = left.replace('HIERARCH ', '')
         header[left] = convert_dtype(right)
-- 
2.43.0


From 5f52ca604c22f3db1527f63e3098dac49eb5e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 35/75] fix: reading a truncated gwy file may practically never
 end

---
 surfalize/file/gwy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..1772fa6 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -3,7 +3,7 @@ import struct
 import numpy as np
 
 from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
 # This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
@@ -29,6 +29,8 @@ def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto
     i = 0
     while i < maxsize:
         char = filehandle.read(1)
+        if not char:
+            raise CorruptedFileError('Unexpected end of file.')
         if char == b'\x00':
             break
         string += char
-- 
2.43.0


From 64d30348653e3d15cc42a9005ec969c124cc8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 36/75] fix: metadata in the trailer of ascii sdf files is not
 read

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..706347f 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -91,7 +91,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
     # If we want to parse this as xml, we need to clean it up first with a regex anyway, so we may as well use it
     # to parse it, even though it is an evil thing to do
     pattern = r'< ?\b(\w+)\b ?>(.*)< ?/ ?\b\1\b ?>'
-    metadata.update({k: v.strip() for k, v in re.findall(pattern, data_section)})
+    metadata.update({k: v.strip() for k, v in re.findall(pattern, trailer_section)})
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=None)
 
-- 
2.43.0


From f306ba5ec9a682157d53423fd78b9d0b7f875176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 37/75] fix: failing custom parameter aborts the batch although
 errors are ignored

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..81d1fd3 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,8 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            # The names of the values are unknown, the missing entries are filled with nan in the dataframe
+            return {}
         return result
 
 
-- 
2.43.0


From 4d42de7ce437fa1d7cb23a15e61017b6d1861ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 38/75] fix: registering a custom parameter twice raises the
 wrong error

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 81d1fd3..0f1f430 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -761,7 +761,7 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
-                raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
+                raise BatchError(f'The parameter "{step.name}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
 
-- 
2.43.0


From 33563601bee6f3f3b3a9c86368ed7192e6382147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 39/75] fix: special characters in the fixed text of filename
 templates are not matched literally

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 0f1f430..6e6f902 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,5 +1,6 @@
 import inspect
 import io
+import re
 from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
@@ -136,7 +137,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -144,12 +145,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From 89ca2735496923b55f530f98498074337b9a7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 40/75] fix: unopened expressions in filename templates are not
 reported

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 6e6f902..ed769f4 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -107,6 +107,8 @@ class FilenameParser:
                 separator = ''
                 continue
             elif char == '>':
+                if not token_started:
+                    raise ParsingError(f'Unopened expression found: "{separator}>"')
                 token_started = False
                 tokens.append(_Token(token))
                 continue
-- 
2.43.0


From 97bb4c0b1a12f711ed6a3333e8d1c97f2900964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 41/75] fix: converting to a new file uses the options of the
 default format instead of the one indicated by the suffix

---
 surfalize/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..ee31517 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,7 +200,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    if output_path.is_file() or (input_path.is_file() and output_path.suffix):
         format = output_path.suffix
 
     if format != '.sur' and compressed:
-- 
2.43.0


From bec8881f033a779b9614d2eb2573f5643baad564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 42/75] fix: convert ignores the format for files without
 suffix and skips files with upper-case suffix

---
 surfalize/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index ee31517..b8f52df 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -202,6 +202,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     if output_path.is_file() or (input_path.is_file() and output_path.suffix):
         format = output_path.suffix
+    format = format.lower()
 
     if format != '.sur' and compressed:
         raise click.BadParameter(
@@ -215,7 +216,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         )
         return
 
-    kwargs = {}
+    kwargs = {'format': format}
     if format == '.sur':
         kwargs['compressed'] = compressed
 
@@ -226,7 +227,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
 
     output_path.mkdir(parents=True, exist_ok=True)
     for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix in supported_formats_read:
+        if input_file.is_file() and input_file.suffix.lower() in supported_formats_read:
             out = output_path / (input_file.stem + format)
             convert_file(input_file, out, skip_image_layers, **kwargs)
             click.echo(f"Converted {input_file} → {out}")
-- 
2.43.0


From eac6ab9c35c026d5cc4acade2883cb0bd3bc04fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 43/75] fix: unicode spellings of the micro sign are not
 accepted for the target unit

---
 surfalize/file/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 8759de8..0175d03 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -129,6 +129,7 @@ def get_unit_conversion(from_unit, to_unit):
     """
     from_unit = _sanitize_mu(from_unit)
     from_unit = from_unit.lower()
+    to_unit = _sanitize_mu(to_unit)
     to_unit = to_unit.lower()
     if from_unit not in UNIT_EXPONENT:
         from_unit = fix_decoding_issues(from_unit)
-- 
2.43.0


From 8ef615fd4d617e2f48a9cb27e14db1ff1acd7085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 44/75] fix: most wrongly decoded micro signs are not
 recognized

---
 surfalize/file/common.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 0175d03..a7210ea 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -111,6 +111,29 @@ def _sanitize_mu(string):
     return string
 
 
+def _normalize_unit(unit):
+    """
+    Converts any spelling of a unit, including wrongly decoded ones, to the one listed in UNIT_EXPONENT.
+
+    Parameters
+    ----------
+    unit : str
+        Input unit.
+
+    Returns
+    -------
+    str
+    """
+    normalized = _sanitize_mu(unit).lower()
+    if normalized in UNIT_EXPONENT:
+        return normalized
+    # The wrongly decoded characters must be compared as they are, since replacing or lowering them alters them
+    fixed = fix_decoding_issues(unit[:-1] + unit[-1:].lower())
+    if fixed in UNIT_EXPONENT:
+        return fixed
+    return fix_decoding_issues(normalized)
+
+
 def get_unit_conversion(from_unit, to_unit):
     """
     Calculates unit conversion factor.
@@ -127,14 +150,8 @@ def get_unit_conversion(from_unit, to_unit):
     factor : float
         Factor by which to multiply the original values.
     """
-    from_unit = _sanitize_mu(from_unit)
-    from_unit = from_unit.lower()
-    to_unit = _sanitize_mu(to_unit)
-    to_unit = to_unit.lower()
-    if from_unit not in UNIT_EXPONENT:
-        from_unit = fix_decoding_issues(from_unit)
-    if to_unit not in UNIT_EXPONENT:
-        to_unit = fix_decoding_issues(to_unit)
+    from_unit = _normalize_unit(from_unit)
+    to_unit = _normalize_unit(to_unit)
     if from_unit not in UNIT_EXPONENT:
         raise ValueError(f'Unit {from_unit} does not exist.')
     if to_unit not in UNIT_EXPONENT:
-- 
2.43.0


From 7aa140f5c5b02b8dcefecd54096055749d0fdfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 45/75] fix: period and orientation are wrong if the Fourier
 peak lies between two frequencies

---
 surfalize/fourier.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b86d2d2..a515bdc 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -45,16 +45,14 @@ class FourierTransform(CachedInstance):
         # Calculate the frequency values for the x and y axes
         freq_x = np.fft.fftshift(np.fft.fftfreq(M, d=surface.width_um / M))  # Frequency values for the x-axis
         freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N))  # Frequency values for the y-axis
-        # Sort in descending order by computing sorting indices
-        idx_y, idx_x = np.unravel_index(np.argsort(fft.flatten())[::-1], fft.shape)
+        idx_y, idx_x = np.unravel_index(np.argmax(fft), fft.shape)
         # Transform into spatial frequencies in length units
         # If this is not done, the computed angle will be wrong since the frequency per pixel
         # resolution is different in x and y due to the different sampling length!
-        peaks_x = freq_x[idx_x]
-        peaks_y = freq_y[idx_y]
-        # Create peak tuples for ease of use
-        peak0 = (peaks_x[0], peaks_y[0])
-        peak1 = (peaks_x[1], peaks_y[1])
+        peak1 = (freq_x[idx_x], freq_y[idx_y])
+        # The spectrum of real data is point symmetric, so the second peak is the mirror image of the first one. The
+        # second largest value might also be a neighbour of the first peak, if the peak lies between two frequencies.
+        peak0 = (-peak1[0], -peak1[1])
         # Peak1 should always be to the right of peak0
         if peak0[0] > peak1[0]:
             peak0, peak1 = peak1, peak0
-- 
2.43.0


From ab901cf7f8f17745f39f60ca113f19aaec138ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 46/75] fix: refined orientation is NaN for aligned textures,
 wrong for unequal step sizes and fails for short periods

---
 surfalize/surface.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index c4486e9..4b1585b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1380,13 +1380,15 @@ class Surface(BaseTopography):
 
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
-            period_px = int(period_x / self.step_x)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            step, step_dist = self.step_x, self.step_y
+            period_px = period_x / step
+            dist_px = max(1, min(int(period_x / step_dist * SAMPLE_RATE_FACTOR), self.size.y // 10))
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
-            period_px = int(period_y / self.step_y)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            step, step_dist = self.step_y, self.step_x
+            period_px = period_y / step
+            dist_px = max(1, min(int(period_y / step_dist * SAMPLE_RATE_FACTOR), self.size.x // 10))
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
 
@@ -1406,16 +1408,17 @@ class Surface(BaseTopography):
         # jumps back by one period. For this to be true, we need to sample at least a couple points between each
         # periodic interval, which is determined by SAMPLE_RATE_FACTOR
         diff_norm = np.abs((diff - np.median(diff)))
-        diff_norm = diff_norm / np.abs(diff_norm).max()
+        # The extremum jumps by half a period. If there are no jumps, there is nothing but noise to be compared with
+        diff_norm = diff_norm / max(diff_norm.max(), period_px / 2)
         # Here we remove all values that deviate more than 5% from the median slope
         THRESHOLD = 0.05
         d = diff[diff_norm < THRESHOLD].mean()
 
-        # Compute the angle
-        angle = np.rad2deg(np.arctan(d / dist_px))
+        # Compute the angle from the physical distances
+        angle = np.rad2deg(np.arctan(d * step / (dist_px * step_dist)))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
-        if period_x > period_y:
-            angle = np.sign(angle) * 90 - angle
+        if period_x >= period_y:
+            angle = np.copysign(90, angle) - angle
         return angle
 
     @batch_method('parameter')
-- 
2.43.0


From d24bd9262d22f4305a5f0b91ff56f6537dd7f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 47/75] fix: integer heights overflow, are truncated by filters
 and cannot hold non-measured points

---
 surfalize/profile.py | 3 +++
 surfalize/surface.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index fc62f5a..b6eda18 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,6 +84,9 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
+        # Integer heights would overflow in differences, be truncated by filters and could not hold non-measured points
+        if not np.issubdtype(value.dtype, np.floating):
+            value = value.astype('float64')
         self._data = value
         self.length_um = (value.shape[0] - 1) * self.step
         self.clear_cache()
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 4b1585b..a5267a6 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,6 +139,9 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
+        # Integer heights would overflow in differences, be truncated by filters and could not hold non-measured points
+        if not np.issubdtype(value.dtype, np.floating):
+            value = value.astype('float64')
         self._data = value
         self.width_um = (value.shape[1] - 1) * self.step_x
         self.height_um = (value.shape[0] - 1) * self.step_y
-- 
2.43.0


From 61eea200a4a4885439c9d05aa52213880d2c7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 48/75] fix: fill_nonmeasured alters measured points

---
 surfalize/profile.py | 2 ++
 surfalize/surface.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index b6eda18..ff6c80b 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -151,7 +151,9 @@ class Profile(BaseTopography):
             return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
+        # The interpolation does not exactly reproduce the measured points, so only the non-measured ones are taken from it
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
+        data_interpolated = np.where(mask, self.data, data_interpolated).astype(self.data.dtype)
 
         if inplace:
             self._set_data(data=data_interpolated)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5267a6..9ff3ac2 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -513,8 +513,10 @@ class Surface(BaseTopography):
         grid_x, grid_y = np.meshgrid(np.arange(self.size.x), np.arange(self.size.y))
         points = np.column_stack([grid_x.ravel(), grid_y.ravel()])
 
+        # The interpolation does not exactly reproduce the measured points, so only the non-measured ones are taken from it
         data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method)
-        
+        data_interpolated = np.where(np.isnan(self.data), data_interpolated, self.data).astype(self.data.dtype)
+
         if inplace:
             self._set_data(data=data_interpolated)
             return self
-- 
2.43.0


From 1a4c215b8d29fc9f445e14b038e573815ecb9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 49/75] fix: rotating a surface changes its lateral scale

---
 surfalize/surface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 9ff3ac2..2802e50 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -649,10 +649,10 @@ class Surface(BaseTopography):
         xmax = int(nx - (nx - w)/2) - 1
         
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
-        height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
-        step_y = height_um / rotated_cropped.shape[0]
-        step_x = width_um / rotated_cropped.shape[1]
+        # Rotation preserves the distance between the points. If the stepsizes are not equal, the new ones are the
+        # distances covered by the rotated axes of the pixel grid.
+        step_x = np.hypot(self.step_x * pre_comp_cos, self.step_y * pre_comp_sin)
+        step_y = np.hypot(self.step_x * pre_comp_sin, self.step_y * pre_comp_cos)
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From 7f3e5c0a745fb0da43377cb8f9e4641f0d75be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 50/75] fix: flipping a surface by slicing results in a
 negative stepsize

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 2802e50..61949ab 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -267,12 +267,12 @@ class Surface(BaseTopography):
         step_x = self.step_x
         if isinstance(item, slice):
             if item.step is not None:
-                step_y = item.step * self.step_y
+                step_y = abs(item.step) * self.step_y
         if isinstance(item, tuple):
             if isinstance(item[0], slice) and item[0].step is not None:
-                step_y = item[0].step * self.step_y
+                step_y = abs(item[0].step) * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
-                step_x = item[1].step * self.step_x
+                step_x = abs(item[1].step) * self.step_x
         return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
-- 
2.43.0


From dde1442811961da2c10937184957b2aa74a5d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 51/75] fix: cropping with a reversed box returns an empty
 surface instead of rejecting it

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 61949ab..0248094 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -711,7 +711,7 @@ class Surface(BaseTopography):
         else:
             x0, x1, y0, y1 = box
 
-        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
+        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1 or x0 > x1 or y0 > y1:
             raise ValueError('Box is out of bounds!')
 
         data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
-- 
2.43.0


From 39dd24fd2c67aa903ed1b4e3a4cbb2aad7bda1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 52/75] fix: fill values enter the corners of rotated surfaces

---
 surfalize/surface.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 0248094..bd743b2 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -626,28 +626,23 @@ class Surface(BaseTopography):
         surface : surfalize.Surface
             Surface object.
         """
-        rotated = ndimage.rotate(self.data, angle, reshape=True)
-
-        aspect_ratio = self.size.y / self.size.x
-        rotated_aspect_ratio = rotated.shape[0] / rotated.shape[1]
-
-        if aspect_ratio < 1:
-            total_height = self.size.y / rotated_aspect_ratio
-        else:
-            total_height = self.size.x
+        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='nearest')
 
         pre_comp_sin = np.abs(np.sin(np.deg2rad(angle)))
         pre_comp_cos = np.abs(np.cos(np.deg2rad(angle)))
 
-        w = total_height / (aspect_ratio * pre_comp_sin + pre_comp_cos)
-        h = w * aspect_ratio
+        # Distances between the outermost points of the inscribed rectangle
+        w, h = self.size.x - 1, self.size.y - 1
+        scale = min(w / (w * pre_comp_cos + h * pre_comp_sin), h / (w * pre_comp_sin + h * pre_comp_cos))
+        w, h = w * scale, h * scale
 
+        # The tolerance prevents that points on the border are lost due to rounding errors
         ny, nx = rotated.shape
-        ymin = int((ny - h)/2) + 1
-        ymax = int(ny - (ny - h)/2) - 1
-        xmin = int((nx - w)/2) + 1
-        xmax = int(nx - (nx - w)/2) - 1
-        
+        ymin = int(np.ceil((ny - 1 - h) / 2 - 1e-9))
+        ymax = int(np.floor((ny - 1 + h) / 2 + 1e-9))
+        xmin = int(np.ceil((nx - 1 - w) / 2 - 1e-9))
+        xmax = int(np.floor((nx - 1 + w) / 2 + 1e-9))
+
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
         # Rotation preserves the distance between the points. If the stepsizes are not equal, the new ones are the
         # distances covered by the rotated axes of the pixel grid.
-- 
2.43.0


From 98aaa5712d193e3c6b155700b192b01aa5307b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 53/75] fix: ascii sdf files are written with a corrupted
 header

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index 706347f..e1b9cbe 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From 18ebd19accf2547a0f45c13a0478506210a93421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 54/75] fix: offset of sur files is not converted to
 micrometres

---
 surfalize/file/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 3eb1b21..2555948 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -317,7 +317,7 @@ def get_surface(sur_obj):
     if sur_obj.header['non_measured_points'] == 1:
         data[nan_mask] = np.nan
 
-    data += sur_obj.header['offset_z']
+    data += sur_obj.header['offset_z'] * get_unit_conversion(sur_obj.header['unit_step_z'], 'um')
 
     # This can be implemented in the future when metadata support is needed
     # timestamp = datetime.datetime(year=header['year'], month=header['month'], day=header['day'])
-- 
2.43.0


From 25275c689ad7155d3192fc639ea46b6f92b16b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 55/75] fix: gwy files that contain volume data or graphs
 without a channel cannot be loaded

---
 surfalize/file/gwy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 1772fa6..fc70d7a 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -124,7 +124,7 @@ def guess_image_channels(tree, layer_candidates):
 def get_image_related_layer_keys(tree):
     image_related_layers = []
     for key in tree['GwyContainer']:
-        mo = re.search(r'/(\d+)/', key)
+        mo = re.match(r'/(\d+)/data$', key)
         if mo:
             image_related_layers.append(mo.group(1))
     return list(set(image_related_layers))
-- 
2.43.0


From 5840cf6ac3a6bc5ca3666ce5e30b80c780202227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 56/75] fix: integer heights in x3p files are not scaled by the
 increment

---
 surfalize/file/x3p.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..7440a1a 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -71,6 +71,9 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
         cz = axes.find("CZ")
 
         dtype = DTYPE_MAP[cz.find("DataType").text]
+        # Integer heights are multiples of the increment, floating point heights are absolute
+        increment = cz.find("Increment")
+        scale_z = float(increment.text) if dtype in ('<u2', '<u4') and increment is not None else 1
 
         step_x = float(cx.find("Increment").text) * CONVERSION_FACTOR
         step_y = float(cy.find("Increment").text) * CONVERSION_FACTOR
@@ -88,7 +91,7 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * (scale_z * CONVERSION_FACTOR)
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From ef27a1676cdc7dcf56fec20289070c524f8ec888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 57/75] fix: dat files with invalid intensity values cannot be
 loaded with image layers

---
 surfalize/file/dat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 225e25d..a8f3026 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -278,7 +278,7 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
         else:
             intensity_data = intensity_data.reshape(header['ac_height'], header['ac_width'])
             image_layers['Intensity'] = intensity_data
-        if np.nanmax(intensity_data) > header['ac_range']:
+        if np.any((intensity_data > header['ac_range']) & (intensity_data < INVALID_VALUE_INTENSITY)):
             raise CorruptedFileError('Points above specified range detected in intensity data!')
     else:
         filehandle.seek(header['ac_n_bytes'], 1)
-- 
2.43.0


From 1b0547427d7a04cfe7d0849338bfd6a39986fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 58/75] fix: damaged files are loaded as surfaces without any
 points or with invalid height data

---
 surfalize/file/common.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index a7210ea..e9f0cd3 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -9,7 +9,7 @@ import numpy as np
 import chardet
 from abc import abstractmethod, ABC
 
-from surfalize.exceptions import UnsupportedFileFormatError
+from surfalize.exceptions import CorruptedFileError, UnsupportedFileFormatError
 from surfalize.utils import is_list_like
 
 ENCODINGS = ('ascii', 'big5', 'big5hkscs', 'cp037', 'cp273', 'cp424', 'cp437', 'cp500', 'cp720', 'cp737', 'cp775',
@@ -474,6 +474,15 @@ class FileHandler:
             return True
         return False
 
+    @staticmethod
+    def _read_with(reader, filehandle, read_image_layers, encoding):
+        raw_surface = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+        data = raw_surface.data
+        # Damaged headers can result in data without any points or in data which are not heights at all
+        if data is None or data.ndim != 2 or data.size == 0 or data.dtype.kind not in 'iuf':
+            raise CorruptedFileError('The file does not contain a two-dimensional array of height data.')
+        return raw_surface
+
     def read(self, read_image_layers=False, encoding="utf-8"):
         exception = None
         # Surface is either a file on disk specified with a path or the format was explicitly specified
@@ -489,7 +498,7 @@ class FileHandler:
                 reader = self._readers_by_suffix[suffix]
                 try:
                     with open_file_like(self.file, 'rb') as filehandle:
-                        return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+                        return self._read_with(reader, filehandle, read_image_layers, encoding)
                 except Exception as e:
                     exception = e
 
@@ -504,7 +513,7 @@ class FileHandler:
                                       f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
                                       f'correct. The file was now loaded as {reader._suffix}.')
                     filehandle.seek(-len(magic), 1)
-                    return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+                    return self._read_with(reader, filehandle, read_image_layers, encoding)
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
         # reader that fails, so we also suppress any warnings the probed readers might emit on incompatible data.
@@ -513,7 +522,7 @@ class FileHandler:
             try:
                 with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
-                    result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
+                    result = self._read_with(reader, filehandle, read_image_layers, encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context
                 warnings.warn(f'The file suffix indicates a file of type {indicated}. However, the file '
                               f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-- 
2.43.0


From 1800a541163e4b5099469e4aad20a6125827f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 59/75] fix: low noise step heights are wrong since the
 threshold cuts through the lower plateau

---
 surfalize/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 2babefe..c43034e 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -142,7 +142,7 @@ def otsu_threshold(values, nbins=256):
     # Between-class variance for a threshold placed between bin i and i+1
     variance12 = weight1[:-1] * weight2[1:] * (mean1[:-1] - mean2[1:]) ** 2
     idx = np.argmax(variance12)
-    return bin_centers[idx]
+    return bin_edges[idx + 1]
 
 
 def argmax_all(arr):
-- 
2.43.0


From b9baf037c202f9e921a208850c05b08b476b225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 60/75] fix: unit cells are too small in homogeneity if the
 period is a multiple of the stepsize

---
 surfalize/surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index bd743b2..d145f73 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1496,8 +1496,9 @@ class Surface(BaseTopography):
         if period is None:
             period = self.period()
 
-        cell_length_x = int(period / self.step_x)
-        cell_length_y = int(period / self.step_y)
+        # Rounding ensures that a quotient such as 2.9999999999999996 is not truncated to the next lower integer
+        cell_length_x = int(round(period / self.step_x, 6))
+        cell_length_y = int(round(period / self.step_y, 6))
         ncells_x = int(self.size.x / cell_length_x)
         ncells_y = int(self.size.y / cell_length_y)
         ncells = ncells_x * ncells_y
-- 
2.43.0


From aae14ef97fa6b30fb68e358d04c0dbee77c6ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 61/75] fix: depth is wrong if the fit of a profile does not
 converge from a bad initial phase

---
 surfalize/mathutils.py | 21 +++++++++++++++++++++
 surfalize/surface.py   |  4 ++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index c43034e..5605748 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -299,6 +299,27 @@ class Sinusoid:
             x0 = x0 - p / 2
         return cls(a, p, x0, y0)
 
+    @staticmethod
+    def estimate_x0(xdata, ydata, period):
+        """
+        Estimates the lateral offset x0 of a sinusoid of known period from the phase of its Fourier coefficient.
+
+        Parameters
+        ----------
+        xdata : ndarray
+            array of x-data
+        ydata : ndarray
+            array of y-data
+        period : float
+            period of the sinusoid.
+
+        Returns
+        -------
+        x0 : float
+        """
+        coefficient = np.sum((ydata - np.mean(ydata)) * np.exp(-2j * np.pi * xdata / period))
+        return -(np.angle(coefficient) + np.pi / 2) / (2 * np.pi) * period
+
     def __call__(self, x):
         """
         Computes the value of a generic sinusoid at position x.
diff --git a/surfalize/surface.py b/surfalize/surface.py
index d145f73..710abc4 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1580,8 +1580,8 @@ class Surface(BaseTopography):
             else:
                 line = self.data[:, profile_dist_px * i]
             xp = np.arange(line.size)
-            # Define initial guess for fit parameters
-            p0=((line.max() - line.min())/2, period_px, 0, line.mean())
+            # Define initial guess for fit parameters. Without an estimate of the phase, the fit may not converge.
+            p0=((line.max() - line.min())/2, period_px, Sinusoid.estimate_x0(xp, line, period_px), line.mean())
             # Fit the data to the general sine function
             sinusoid = Sinusoid.from_fit(xp, line, p0=p0)
             first_extremum = sinusoid.first_extremum()
-- 
2.43.0


From db51ec03d1d05a32ede4265c910e3d0d58b413ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 62/75] fix: the period of a profile depends on its height
 offset

---
 surfalize/mathutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 5605748..ec29d6c 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -195,7 +195,8 @@ def get_period_fft_1d(xdata, ydata):
     -------
     period : float
     """
-    fft = np.abs(np.fft.fft(ydata))
+    # Without centering the zero frequency hides long periods and makes the prominences depend on the height offset
+    fft = np.abs(np.fft.fft(ydata - np.mean(ydata)))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
     peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
-- 
2.43.0


From 58d8dc9b686ba1f8b08d62e921c43560fece3a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 63/75] fix: Read surfaces that do not begin at the start of a
 buffer

---
 surfalize/file/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index e9f0cd3..fb92bcc 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -198,7 +198,11 @@ def open_file_like(file_or_path, mode='r'):
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
         try:
-            yield file_or_path
+            if current_pos > 0 and mode == 'rb':
+                # The positions stored in the files are relative to the beginning of the surface, not of the buffer
+                yield io.BytesIO(file_or_path.read())
+            else:
+                yield file_or_path
         finally:
             file_or_path.seek(current_pos, 0)
     else:
-- 
2.43.0


From cc45f667724377265d81ad2ae280e32aa4f15e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 64/75] fix: Write al3d at the current position of a buffer

---
 surfalize/file/al3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/al3d.py b/surfalize/file/al3d.py
index 7857396..9e1c440 100644
--- a/surfalize/file/al3d.py
+++ b/surfalize/file/al3d.py
@@ -35,10 +35,11 @@ def write_al3d(filehandle, surface, encoding='utf-8'):
     header['Rows'] = surface.size.y
     header['TextureImageOffset'] = 0
 
+    start = filehandle.tell()
     filehandle.write(MAGIC)
     for key, value in header.items():
         write_tag(filehandle, key, value, encoding=encoding)
-    pos = filehandle.tell()
+    pos = filehandle.tell() - start
     n_padding = header['DepthImageOffset'] - pos - 2
     filehandle.write(b'\x00' * n_padding + b'\r\n')
     data = surface.data.astype(DTYPE) * 1e-6
-- 
2.43.0


From 1323b884f82adaa99fdb3bcc250c66eb0edc4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:02 +0000
Subject: [PATCH 65/75] fix: Draw the legend of missing points on the axes of
 the plot only

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 710abc4..fa50781 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -10,6 +10,7 @@ from collections import namedtuple
 # Scipy stack
 import numpy as np
 import matplotlib.pyplot as plt
+from matplotlib.lines import Line2D
 from matplotlib.patches import Rectangle
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 from scipy.linalg import lstsq
@@ -1768,7 +1769,8 @@ class Surface(BaseTopography):
         ax.set_xlabel('x [µm]')
         ax.set_ylabel('y [µm]')
         if layer == 'Topography' and self.has_missing_points:
-            handles = [plt.plot([], [], marker='s', c=maskcolor, ls='')[0]]
+            # plt.plot would add the handle to whichever axes are current
+            handles = [Line2D([], [], marker='s', c=maskcolor, ls='')]
             ax.legend(handles, ['non-measured points'], loc='lower right', fancybox=False, framealpha=1, fontsize=6)
         if save_to:
             fig.savefig(save_to, dpi=300, bbox_inches='tight')
-- 
2.43.0


From 2e30dd88e14c8e6c7dd41237a19b818dd68de09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:02 +0000
Subject: [PATCH 66/75] fix: Crop the Fourier transform symmetrically for odd
 numbers of points

---
 surfalize/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index a515bdc..d3f77ce 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -266,12 +266,12 @@ class FourierTransform(CachedInstance):
 
         if fxmax is not None:
             ixmax = argclosest(fxmax, freq_x)
-            ixmin = M - ixmax
+            ixmin = max(0, 2 * (M // 2) - ixmax)
             fft = fft[:, ixmin:ixmax + 1]
 
         if fymax is not None:
             iymax = argclosest(fymax, freq_y)
-            iymin = N - iymax
+            iymin = max(0, 2 * (N // 2) - iymax)
             fft = fft[iymin:iymax + 1]
 
         vmin = None
-- 
2.43.0


From 090043bf9e12f4577071424f0f59bf719105a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:02 +0000
Subject: [PATCH 67/75] fix: Keep extent and measured points of 3d plots with a
 lower level of detail

---
 surfalize/plotting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/plotting.py b/surfalize/plotting.py
index d91cc33..bf23fc6 100644
--- a/surfalize/plotting.py
+++ b/surfalize/plotting.py
@@ -98,9 +98,12 @@ def plot_3d(surface, vertical_angle=50, horizontal_angle=0, zoom=1, cmap='jet',
 
     if level_of_detail < 100:
         factor = level_of_detail / 100
-        surface = surface.__class__(ndimage.zoom(surface.data, factor),
-                                    surface.step_x / factor,
-                                    surface.step_y / factor)
+        # Splines of higher order would spread non-measured points over the entire surface
+        data = ndimage.zoom(surface.data, factor, order=1 if surface.has_missing_points else 3)
+        # The outermost points keep their positions
+        surface = surface.__class__(data,
+                                    surface.width_um / max(data.shape[1] - 1, 1),
+                                    surface.height_um / max(data.shape[0] - 1, 1))
 
     # Generate a grid of x, y values
     x = np.linspace(0, surface.width_um, surface.size.x)
-- 
2.43.0


From 0750583bc7688e8253e731a8e150d0dade8d2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:02 +0000
Subject: [PATCH 68/75] fix: Extract the files of cag archives under their
 names on any platform

---
 surfalize/file/cag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/cag.py b/surfalize/file/cag.py
index 364fabf..507ab55 100644
--- a/surfalize/file/cag.py
+++ b/surfalize/file/cag.py
@@ -1,11 +1,13 @@
 import re
-from pathlib import Path
+from pathlib import Path, PureWindowsPath
+from xml.sax.saxutils import unescape
 import zipfile
 
 def parse_idx_table(idx_table_str):
     file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)
     file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)
-    file_names = [Path(file_path).name for file_path in file_paths]
+    # The archive stores escaped Windows paths, which have to be taken apart on any platform
+    file_names = [PureWindowsPath(unescape(file_path)).name for file_path in file_paths]
     file_dict = dict(zip(file_ids, file_names))
     return file_dict
 
-- 
2.43.0


From 0cfadf08ecfc7a47ca1724eb21a19257a08abe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 69/75] fix: Draw the Fourier transform of surfaces with a flat
 spectrum

---
 surfalize/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index d3f77ce..9571e08 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -276,7 +276,8 @@ class FourierTransform(CachedInstance):
 
         vmin = None
         vmax = None
-        if adjust_colormap:
+        # For flat spectra and for logarithms below zero, the mean can exceed 0.7 times the maximum
+        if adjust_colormap and fft.mean() < 0.7 * fft.max():
             vmin = fft.mean()
             vmax = 0.7 * fft.max()
 
-- 
2.43.0


From 5935f7faafe6347b61ed19fe09cfd827d37c50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 70/75] fix: Draw the angular spectrum in place of axes that
 span cells or belong to a nested grid

---
 surfalize/fourier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 9571e08..e53bf35 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -300,9 +300,10 @@ class FourierTransform(CachedInstance):
             fig, ax = plt.subplots(dpi=150, subplot_kw={'projection': 'polar'})
         else:
             fig = ax.figure
-            rows, cols, start, stop = ax.get_subplotspec().get_geometry()
+            # The geometry of the grid would not suffice for axes which span several cells or are part of a nested grid
+            subplotspec = ax.get_subplotspec()
             ax.remove()
-            ax = fig.add_subplot(rows, cols, start + 1, projection='polar')
+            ax = fig.add_subplot(subplotspec, projection='polar')
 
         angles, spectrum = self.angular_power_spectrum(angle_step=angle_step)
 
-- 
2.43.0


From 68deb00bfaa2d9315743a32697f64817fd22122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:39 +0000
Subject: [PATCH 71/75] fix: Gwyddion files with texts of more than 4096
 characters could not be read

---
 surfalize/file/gwy.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index fc70d7a..0f8d52b 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -6,7 +6,7 @@ from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler,
 from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
-# This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
+# This is not specified by the file standard but we nonetheless assume that a name will never be longer than that
 STR_MAX_SIZE = 4096
 
 
@@ -18,16 +18,16 @@ def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto
     ----------
     filehandle
         Handle to the opened file. Is assumed to be at the correct position.
-    maxsize: int
-        Maximum size of the string to read.
+    maxsize: int | None
+        Maximum size of the string to read. If None, the size is not limited.
 
     Returns
     -------
     Decoded string
     """
-    string = b''
+    string = bytearray()
     i = 0
-    while i < maxsize:
+    while maxsize is None or i < maxsize:
         char = filehandle.read(1)
         if not char:
             raise CorruptedFileError('Unexpected end of file.')
@@ -177,14 +177,14 @@ class Component:
         if self.datatype == 'o':
             return [Container(filehandle, encoding=self.encoding).read_contents() for _ in range(array_size)]
         elif self.datatype == 's':
-            return [read_null_terminated_string(filehandle, encoding=self.encoding) for _ in range(array_size)]
+            return [read_null_terminated_string(filehandle, maxsize=None, encoding=self.encoding) for _ in range(array_size)]
         return read_array(filehandle, count=array_size, dtype=self.datatype)
 
     def _read_atomic(self, filehandle):
         if self.datatype == 'o':
             return Container(filehandle, encoding=self.encoding).read_contents()
         elif self.datatype == 's':
-            return read_null_terminated_string(filehandle, encoding=self.encoding)
+            return read_null_terminated_string(filehandle, maxsize=None, encoding=self.encoding)
         result = struct.unpack(f'{self.datatype}', filehandle.read(struct.calcsize(self.datatype)))[0]
         if self.datatype == 'b':
             # Gwyddion docs state that all non-zero values are to be interpreted as true
-- 
2.43.0


From ecda1cf4bcb160d6d91630b9c4c637a9ccf95f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:16 +0000
Subject: [PATCH 72/75] fix: depth failed when plotting profiles sampled at
 single points or given as an array

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index fa50781..5523d1a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1589,7 +1589,7 @@ class Surface(BaseTopography):
             # Allocate depth array for line
             depths_line = np.zeros(nintervals * 2)
 
-            if plot and i in plot:
+            if plot is not None and i in plot:
                 fig, ax = plt.subplots(figsize=(16,4))
                 ax.plot(xp, line, lw=1.5, c='k', alpha=0.7)
                 ax.plot(xp, sinusoid(xp), c='orange', ls='--')
@@ -1609,10 +1609,10 @@ class Surface(BaseTopography):
                 depth_median = np.median(line[idx_min:idx_max+1])
                 depths_line[j] = depth_median
                 # For plotting
-                if plot and i in plot:
+                if plot is not None and i in plot:
                     rx = xp[idx_min:idx_max+1].min()
                     ry = line[idx_min:idx_max+1].min()
-                    rw = xp[idx_max] - xp[idx_min+1]
+                    rw = xp[idx_max] - xp[idx_min]
                     rh = np.abs(line[idx_min:idx_max+1].min() - line[idx_min:idx_max+1].max())
                     rect = Rectangle((rx, ry), rw, rh, facecolor='tab:orange')
                     ax.plot([rx, rx+rw], [depth_mean, depth_mean], c='r')
-- 
2.43.0


From 494a7e437d29d4b1a2d19ea050acca2a2152f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:55 +0000
Subject: [PATCH 73/75] fix: Surfaces of a single row or column could not be
 levelled

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 5523d1a..c4fd120 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -565,8 +565,8 @@ class Surface(BaseTopography):
         y, x = np.mgrid[:rows, :cols]
 
         # Normalize coordinates to [-1, 1] range
-        x = (x - x.mean()) / x.max()
-        y = (y - y.mean()) / y.max()
+        x = (x - x.mean()) / max(x.max(), 1)
+        y = (y - y.mean()) / max(y.max(), 1)
 
         x_flat = x.flatten()
         y_flat = y.flatten()
-- 
2.43.0


From 9dcca1a355a6c4b22d2ece55ba38b32ab2f64c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:38 +0000
Subject: [PATCH 74/75] fix: sflz files with 64-bit integers lose the highest
 points

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 39c94af..4a13926 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -123,6 +123,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         dtype_max = np.iinfo(dtype).max
         data_norm = (data - min_val) / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
+        if dtype.itemsize == 8:
+            # Double precision rounds the limit of 64-bit integers up beyond their range
+            data = np.minimum(data, np.nextafter(float(dtype_max), 0))
     else:
         header['scaled'] = False
         header['min_value'] = 0
-- 
2.43.0


From 06cf5cd19978b9dd0d23cbbd56f802d4964a2a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:25 +0000
Subject: [PATCH 75/75] fix: xyz files listing the points column by column are
 scrambled

---
 surfalize/file/xyz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index b0d00d4..e8613db 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -22,6 +22,10 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
         raise CorruptedFileError('Number of datapoints does not match expected size.')
     step_x = (x.max() - x.min()) / (nx - 1) * 10**6
     step_y = (y.max() - y.min()) / (ny - 1) * 10**6
-    data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
+    # The points can be listed either row by row or column by column
+    if raw_data[0, 0] == raw_data[1, 0]:
+        data = raw_data[:,2].reshape(nx, ny).T.copy() * 10**6
+    else:
+        data = raw_data[:,2].reshape(ny, nx).copy() * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0

