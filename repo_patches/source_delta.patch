From 623ede92e0e53a0d6944f3ac69393e4426a8e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 01/19] fix: SpotCollection.add_spot recomputes the spot's
 pixel distances on the collection's grid

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..9545480 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From c6c94689d58ef5d1bf8dd33f95e75604549a1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 02/19] fix: FaculaCollection.add_faculae accepts faculae built
 on another kind of grid

---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From 4172580106724ac550b6afdf84d8f4a8dab0c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 03/19] fix: Star.average_teff parses the temperature labels of
 calc_coverage

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..6bb3e56 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From e4cde0503ad98e129fadd2596a82ba92c7a29dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 04/19] fix: Star.get_granulation_coverage reads the amplitude
 under its actual name

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 6bb3e56..4972e85 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -776,7 +776,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From 1a6b8c52c665d1b1ebaa3997d15870d770c2d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 05/19] fix: a decaying StarSpot stops at zero area instead of
 going negative

---
 vspec_vsm/spots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 9545480..de69de3 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -288,7 +288,7 @@ class StarSpot:
 
         If the spot is not growing, it calculates the area that the spot should
         decay (`area_decay`). If the decayed area (`area_decay`) is greater than
-        the maximum area (`area_max`), the `area_current` attribute is set to zero.
+        the current area (`area_current`), the `area_current` attribute is set to zero.
         Otherwise, it updates the `area_current` attribute accordingly.
         """
         if self.is_growing:
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From 9246ad26a721d55bcbac7b269ad8959ebfce80e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 06/19] fix: calc_coverage fractions sum to one whatever the
 temperature labels

Temperatures that share a two-decimal label overwrote each other, a fully
covered photosphere raised KeyError, and so did photosphere temperatures
whose label changes when the map rounds them to float32.
---
 vspec_vsm/spots.py |  2 +-
 vspec_vsm/star.py  | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index de69de3..8bded45 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 4972e85..ad0f869 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,16 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            label = f'{teff:.2f}'
+            # distinct temperatures may share a label
+            total_data[label] = total_data.get(label, 0) + nominal_area/total_area
+            covered_data[label] = covered_data.get(label, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        # The photosphere may also be missing, if it is covered completely.
+        for label in (f'{self.teff:.2f}', f'{granulation_teff:.2f}'):
+            total_data.setdefault(label, 0)
+            covered_data.setdefault(label, 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 27b74cd693219d0050f6d7dbcaa7a9277d710510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 07/19] fix: angular distances of coincident points are 0, not
 NaN

---
 vspec_vsm/coordinate_grid.py | 2 +-
 vspec_vsm/helpers.py         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 8f5433b..12152fc 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -484,7 +484,7 @@ class SpiralGrid(CoordinateGrid):
 
         for value, lat, lon in zip(data, data_lat, data_lon):
             cos_r = rect.cos_angle_from_disk_center(lat, lon)
-            r = np.arccos(cos_r)
+            r = np.arccos(np.clip(cos_r, -1, 1))
             weight = np.exp(-(r/characteristic_len)**2)
             numerator += weight*value
             denominator += weight
diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..a51b066 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1)) # rounding can exceed 1
 
 def proj_ortho(
     lat0: u.Quantity,
@@ -188,6 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
+        mu = np.clip(mu, -1, 1) # rounding can exceed 1
         a = np.arccos(mu)
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
-- 
2.43.0


From cf54bdad9ba7398b8e6c291159bfc1e4919d17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 08/19] fix: proj_ortho honours the central longitude when
 centered on a pole

---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index a51b066..50aafde 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From 081ba9696499759a59cbe168bd482699ac082e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 09/19] fix: circle overlap fraction stays in [0, 1] at
 tangency

---
 vspec_vsm/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 50aafde..8882863 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -274,13 +274,14 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
-        return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
+        ratio = np.clip(_d/_R, -1, 1) # rounding can exceed 1
+        return _R**2 * (np.arccos(ratio) - ratio * np.sqrt(1 - ratio**2))
     A1 = area(R, d1)
     A2 = area(r, d2)
     area_of_intersection = A1+A2
 
     area_of_circle = np.pi*r**2
-    return area_of_intersection/area_of_circle
+    return np.clip(area_of_intersection/area_of_circle, 0.0, 1.0)
 
 def clip_teff(teff: u.Quantity):
     """
-- 
2.43.0


From 0d379f012bcb72506b27ff8f530972dac086d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 10/19] fix: FlareGenerator.pdf converts to a density per
 energy

---
 vspec_vsm/flares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..eb2adcc 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -323,9 +323,9 @@ class FlareGenerator:
         Returns
         -------
         pdf : float or np.ndarray
-            The probability density of energy
+            The probability density of energy, per ``energy_unit``
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From 441a86677291913fad47f221787fa89eaaeed6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 11/19] fix: flare integrals over windows shorter than the
 sampling step are not zero

---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index eb2adcc..d217c32 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,7 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to_value(u.Unit('')))) + 1
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From bf97f91f56f588a75d8a534388b90e1ae676bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 12/19] fix: sign of the growth term in SpotGenerator.mean_area

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 8bded45..099a696 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From b35420a1cc5472e5752d38afcdb48710467706c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 13/19] fix: SpotGenerator.off has a growth rate in inverse
 time

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 099a696..3b3a23a 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -619,7 +619,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From ffdb1e470b4cc118d9ae6834a00154c7897f9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 14/19] fix: Facula.effective_area rejects wall and floor Teff
 that round to the same value

---
 vspec_vsm/faculae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..9298b2d 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -242,7 +242,7 @@ class Facula:
 
         
         """
-        if self.floor_dteff == self.wall_dteff:
+        if round_teff(self.floor_dteff) == round_teff(self.wall_dteff):
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
         if self.radius < self.floor_teff_min_rad:
-- 
2.43.0


From c8dbdd82fa0e5d18239facc420bdffc8b4a98a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:07 +0000
Subject: [PATCH 15/19] fix: Granulation accepts an integer mean coverage

---
 vspec_vsm/granules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index cbd44de..a991f8e 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -114,7 +114,7 @@ class Granulation:
             seed:int = np.random.randint(1, None)
     ):
         self.params = dict(
-            mean=mean_coverage,
+            mean=float(mean_coverage),
             scale=amplitude,
             period=period.to_value(time_unit)
         )
-- 
2.43.0


From 130addae6ce5e394e97c0cd6628c819363f1e2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:57 +0000
Subject: [PATCH 16/19] fix: a spot with more area than the star covers all of
 it

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 3b3a23a..84b1a00 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -186,7 +186,7 @@ class StarSpot:
             The angular radius of the spot.
         """
         cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)
-        return (np.arccos(cos_angle)).to(u.deg)
+        return (np.arccos(np.clip(cos_angle, -1, 1))).to(u.deg)
 
     def map_pixels(self, star_rad: Quantity) -> dict:
         """
-- 
2.43.0


From 0cdba33a2797132e25b6eb76f928bf5b177f3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:57 +0000
Subject: [PATCH 17/19] fix: surface_fraction of a spot seen from right above
 is not NaN

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 84b1a00..a83ebdd 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1)) # rounding can exceed 1
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From b56737d8a01cb2da062d4baf9a9d02128c1e4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 18/19] fix: Granulation without variation covers its mean, not
 NaN

---
 vspec_vsm/granules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index a991f8e..52e4221 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -158,6 +158,8 @@ class Granulation:
         np.ndarray
             The coverage corresponding to each point in `time`.
         """
+        if self.params['scale'] == 0: # no variation
+            return save_cast_coverage(np.full(time.shape, self.params['mean']))
         key = jax.random.PRNGKey(seed=self.seed)
         gp = self._build_gp(time.to_value(time_unit))
         coverage = gp.sample(key)
-- 
2.43.0


From 10b59e515f07613a3e0e52fd64f78362068b8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:39 +0000
Subject: [PATCH 19/19] fix: granulation coverage at closely spaced times is
 not NaN

---
 vspec_vsm/granules.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vspec_vsm/granules.py b/vspec_vsm/granules.py
index 52e4221..16277e3 100644
--- a/vspec_vsm/granules.py
+++ b/vspec_vsm/granules.py
@@ -5,6 +5,7 @@ Granulation
 
 """
 import jax
+from jax.experimental import enable_x64
 import jax.numpy as jnp
 from tinygp import kernels, GaussianProcess
 from astropy import units as u
@@ -63,7 +64,7 @@ def build_gp(params: dict, X: np.ndarray) -> GaussianProcess:
     return GaussianProcess(
         kernel,
         X,
-        diag=0,
+        diag=1e-9*params['scale']/params['period'], # keeps close times positive definite
         mean=params['mean']
     )
 
@@ -161,6 +162,7 @@ class Granulation:
         if self.params['scale'] == 0: # no variation
             return save_cast_coverage(np.full(time.shape, self.params['mean']))
         key = jax.random.PRNGKey(seed=self.seed)
-        gp = self._build_gp(time.to_value(time_unit))
-        coverage = gp.sample(key)
+        with enable_x64(): # close times are singular in single precision
+            gp = self._build_gp(time.to_value(time_unit))
+            coverage = gp.sample(key)
         return save_cast_coverage(np.array(coverage))
-- 
2.43.0

