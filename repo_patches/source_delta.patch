From 98fb49737d10919a076fdc5457328e3c1b81320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 01/68] fix: give subhalos the subhalo mass definition and
 field halos the field one

pyHalo._create_realization assigned mdef_field_halos to subhalos and vice versa.
---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From 252043d55c378054937e90c96d9e3504a2fe7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 02/68] fix: import TNFWCHaloEvolving where the TNFWC_SIDM mass
 definition uses it

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..31cb3f5 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -3,6 +3,7 @@ from pyHalo.Cosmology.cosmology import Cosmology
 from pyHalo.Halos.lens_cosmo import LensCosmo
 from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo, NFWFieldHalo
 from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 from pyHalo.Halos.HaloModels.generalized_nfw import GeneralNFWFieldHalo, GeneralNFWSubhalo
 from pyHalo.Halos.HaloModels.powerlaw import PowerLawFieldHalo, PowerLawSubhalo
 from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
-- 
2.43.0


From ee265166b799e848f1135bba2fb51a699c5dce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 03/68] fix: realizations are equal only when each contains the
 halos of the other

__eq__ only looked for the tags of the other realization in self, so a realization
was equal to every subset of it and the comparison was not symmetric.
---
 pyHalo/single_realization.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 31cb3f5..11fda4f 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -818,11 +818,7 @@ class Realization(object):
         """
         tags = self._tags(self.halos)
         other_tags = other_reealization._tags()
-        for tag in other_tags:
-            if tag not in tags:
-                return False
-        else:
-            return True
+        return set(tags) == set(other_tags)
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0


From d00b984570c3b052af30ac0b304cd7e30b0eaad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 04/68] fix: a realization derived from one aligned with the
 source stays aligned

filter, filter_subhalos, join, split_at_z, realization_at_z, SIS_injection and
add_black_holes dropped the flag that keeps shift_background_to_source from moving
halos twice, so filtering an aligned realization and aligning the result displaced
every halo a second time (halos are shared, so the original moved too).
---
 pyHalo/realization_extensions.py |  2 ++
 pyHalo/single_realization.py     | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..49feec1 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -67,6 +67,7 @@ class RealizationExtensions(object):
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
                                              self._realization.geometry)
+        realization._has_been_shifted = self._realization._has_been_shifted
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
@@ -165,6 +166,7 @@ class RealizationExtensions(object):
                                    self._realization._rendering_center_x,
                                    self._realization._rendering_center_y,
                                    self._realization.geometry)
+        mbh_realization._has_been_shifted = self._realization._has_been_shifted
         return mbh_realization
 
     def add_globular_clusters(self, log10_mgc_mean, log10_mgc_sigma, rendering_radius_arcsec,
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 11fda4f..7dc5c14 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -50,11 +50,13 @@ def realization_at_z(realization,
     centerx, centery = realization.rendering_center
     kwargs_halo_model = realization.kwargs_halo_model
     geometry = realization.geometry
-    return Realization.from_halos(halos, realization.lens_cosmo,
+    new_realization = Realization.from_halos(halos, realization.lens_cosmo,
                                   kwargs_halo_model,
                                   mass_sheet_correction,
                                   realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+                                  centerx, centery, geometry)
+    new_realization._has_been_shifted = realization._has_been_shifted
+    return new_realization, indexes
 
 class Realization(object):
 
@@ -228,9 +230,11 @@ class Realization(object):
             dy = self.y[check, None] - np.asarray(y_coords)[None, :]
             keep[check] = np.any(np.hypot(dx, dy) < aperture_radius_arcsec, axis=1)
         halos = [self.halos[i] for i in np.where(keep)[0]]
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -316,9 +320,11 @@ class Realization(object):
             for i in inds_keep_at_plane:
                 halos.append(plane_halos[i])
 
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, self.rendering_classes,
                                       self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -378,9 +384,11 @@ class Realization(object):
             rendering_classes = self.rendering_classes
 
         centerx, centery = self.rendering_center
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
                                       self.apply_mass_sheet_correction, rendering_classes,
                                       centerx, centery, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -532,6 +540,8 @@ class Realization(object):
         realization_2 = Realization.from_halos(halos_2, self.lens_cosmo,
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
                                                centerx, centery, self.geometry)
+        realization_1._has_been_shifted = self._has_been_shifted
+        realization_2._has_been_shifted = self._has_been_shifted
 
         return realization_1, realization_2
 
-- 
2.43.0


From b16531e537772fc8f771c5001b2c2e76f4fa20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 05/68] fix: the lens model of a halo follows the halo when the
 realization is shifted

Halos cache their lensing parameters, centre included, so a halo whose lensing
parameters had been accessed kept lensing at its old position after
shift_background_to_source; a Hybrid halo takes its centre from its two components,
which were never moved.
---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py |  8 ++++++++
 pyHalo/Halos/halo_base.py                 | 13 +++++++++++++
 pyHalo/single_realization.py              |  3 +--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..5910f59 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -306,6 +306,14 @@ class Hybrid(Halo):
         """
         return self.tnfw_halo.vmax_nfw
 
+    def shift_position(self, delta_x, delta_y):
+        """
+        See documentation in base class (Halos/halo_base.py); the two components move with the halo
+        """
+        super(Hybrid, self).shift_position(delta_x, delta_y)
+        self.tnfw_halo.shift_position(delta_x, delta_y)
+        self.tnfwc_halo.shift_position(delta_x, delta_y)
+
     @property
     def halo_effective_age(self):
         return self.tnfwc_halo.halo_effective_age
diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..c3546fd 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -57,6 +57,19 @@ class Halo(ABC):
         """
         self._args.update(kwargs_halo)
 
+    def shift_position(self, delta_x, delta_y):
+        """
+        Moves the halo, and forgets lensing parameters computed at the previous position
+        :param delta_x: change in angular coordinate x [arcsec]
+        :param delta_y: change in angular coordinate y [arcsec]
+        :return:
+        """
+        self.x += delta_x
+        self.y += delta_y
+        for name in ['_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_params', '_lenstronomy_args_split']:
+            if hasattr(self, name):
+                delattr(self, name)
+
     @property
     def rescale_norm(self):
         return self._rescale_norm
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 7dc5c14..c7ecf04 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -423,8 +423,7 @@ class Realization(object):
             xshift = np.atleast_1d(ray_interp_x(Dc))
             yshift = np.atleast_1d(ray_interp_y(Dc))
             for halo, xs, ys in zip(to_shift, xshift, yshift):
-                halo.x += float(xs)
-                halo.y += float(ys)
+                halo.shift_position(float(xs), float(ys))
 
         new_realization = Realization.from_halos(halos_out, self.lens_cosmo, self.kwargs_halo_model,
                                                  self.apply_mass_sheet_correction,
-- 
2.43.0


From 782b114475540c51c7ca931b9a51674a9fc47d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 06/68] fix: lens planes tile the line of sight for every plane
 spacing

Rounding plane redshifts and thicknesses to two decimals gave duplicate planes and
a wrong total thickness unless the spacing was a multiple of 0.01, and floating point
noise could put a plane of zero thickness at the source redshift.
---
 pyHalo/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 7f90b48..77ed2d8 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -89,12 +89,15 @@ def generate_lens_plane_redshifts(zlens, zsource, lens_plane_spacing=None):
     else:
         front_z = np.arange(zmin, zlens, lens_plane_spacing)
         back_z = np.arange(zlens, zsource, lens_plane_spacing)
-        redshifts = np.append(front_z, back_z)
+        redshifts = np.append(front_z[np.round(front_z, 6) < zlens], back_z)
+    # remove floating point noise, and planes that coincide with the source
+    redshifts = np.round(redshifts, 6)
+    redshifts = redshifts[redshifts < zsource]
     delta_zs = []
     for i in range(0, len(redshifts) - 1):
         delta_zs.append(redshifts[i + 1] - redshifts[i])
     delta_zs.append(zsource - redshifts[-1])
-    return list(np.round(redshifts, 2)), np.round(delta_zs, 2)
+    return list(redshifts), np.round(delta_zs, 6)
 
 def interpolate_ray_paths(x_coordinates, y_coordinates, lens_model, kwargs_lens, zsource,
                           terminate_at_source=False, source_x=None, source_y=None, evaluate_at_mean=False,
-- 
2.43.0


From ee29ba499b0c5f9ea73ec94e9ba43a8a562cf496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 07/68] fix: mass functions and the two-halo term use the
 cosmology they were created with

colossus has one global cosmology; a second Cosmology instance with other parameters
changed the halo mass function of the first.
---
 pyHalo/Cosmology/cosmology.py | 2 ++
 pyHalo/Halos/lens_cosmo.py    | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 736354f..373587e 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -98,6 +98,8 @@ class Cosmology(object):
 
     @property
     def colossus(self):
+        # colossus keeps a single global cosmology, which another instance may have replaced
+        cosmology.setCurrent(self._colossus_cosmo)
         return self._colossus_cosmo
 
     def halo_age(self, z, zform=10):
diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..1bed3f1 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -170,7 +170,8 @@ class LensCosmo(object):
         h = self.cosmo.h
         M_h = M * h
         r_h = r * h
-        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / self.cosmo._colossus_cosmo.rho_m(z)
+        colossus_cosmo = self.cosmo.colossus
+        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / colossus_cosmo.rho_m(z)
         return rho_2h
 
     def nfw_physical2angle(self, m, c, z, pseudo_nfw=False):
-- 
2.43.0


From 578643ddb7cad57a5e2f51cf7660669c51739ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 08/68] fix: the rendering volume includes the slice in front
 of the source

---
 pyHalo/Cosmology/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Cosmology/geometry.py b/pyHalo/Cosmology/geometry.py
index bff62e6..1525d8d 100644
--- a/pyHalo/Cosmology/geometry.py
+++ b/pyHalo/Cosmology/geometry.py
@@ -54,8 +54,8 @@ class Geometry(object):
         volume = 0
         delta_z = 0.01
         z = np.arange(0.0, self._zsource, delta_z)
-        for i in range(0, len(z) - 1):
-            volume += self.volume_element_comoving(z[i], delta_z)
+        for zi in z:
+            volume += self.volume_element_comoving(zi, min(delta_z, self._zsource - zi))
         return volume
 
     def rendering_scale(self, z):
-- 
2.43.0


From ade9f2434964e5fdc60a60fdb25f4a29b658731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 09/68] fix: recompute the lens model of a MassiveGalaxy after
 it moved (the normalization method was overwritten by its value)

---
 pyHalo/Halos/HaloModels/sis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 5e3e364..2ac5198 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -197,12 +197,12 @@ class MassiveGalaxy(Halo):
             gamma_outer = self._args['gamma_outer']
             sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
-            self._alphaRs = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
+            self._rho0_norm = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
                                                             rs_arcsec,
                                                             1.0,
                                                             gamma_inner,
                                                             gamma_outer) / sigma_crit_arcsec
-        return self._alphaRs
+        return self._rho0_norm
 
 
 
-- 
2.43.0


From 4efdc15288290db49acd1a38bf62ad67086c8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 10/68] fix: a generalized NFW halo draws its concentration
 once

---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..53c36f5 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -84,7 +84,7 @@ class GeneralNFWSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             gamma_inner = self._args['gamma_inner']
             gamma_outer = self._args['gamma_outer']
             self._profile_args = (concentration, gamma_inner, gamma_outer)
-- 
2.43.0


From 70c39533174f985bfac3f2420d8790fd52fcb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 11/68] fix: generalized NFW halos do not pass their scale
 radius on through shared keyword arguments

---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 53c36f5..e3a5a90 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -99,8 +99,7 @@ class GeneralNFWSubhalo(Halo):
         if not hasattr(self, '_rho0_norm'):
             (concentration, gamma_inner, gamma_outer) = self.profile_args
             rhos, rs_nfw, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
-            if 'r_transition' not in self._args.keys():
-                self._args['r_transition'] = rs_nfw
+            r_transition = self._args.get('r_transition', rs_nfw)
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             if 'x_match' in self._args.keys():
                 if self._args['x_match'] == 'c':
@@ -110,13 +109,13 @@ class GeneralNFWSubhalo(Halo):
             else:
                 # r_vmax = 2.16 * rs
                 x_match = 2.16
-            rs_arcsec = self._args['r_transition'] / kpc_per_arcsec
-            r_match_arcsec = x_match * self._args['r_transition'] / kpc_per_arcsec
+            rs_arcsec = r_transition / kpc_per_arcsec
+            r_match_arcsec = x_match * r_transition / kpc_per_arcsec
             if 'mass_conservation' in self._args.keys():
                 m_match = self._args['mass_conservation']
             else:
                 fx = np.log(1 + x_match) - x_match / (1 + x_match)
-                m_match = 4 * np.pi * self._args['r_transition'] ** 3 * rhos * fx
+                m_match = 4 * np.pi * r_transition ** 3 * rhos * fx
             sigma_crit_arcsec = self._lens_cosmo.sigma_crit_arcsecond_interp(self.z)
             self._rho0_norm = m_match / self._prof.mass_3d(r_match_arcsec, rs_arcsec, sigma_crit_arcsec, gamma_inner, gamma_outer)
         return self._rho0_norm
-- 
2.43.0


From 7c9bf9ace374d13a92394422fa3a0c9984fd6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 12/68] fix: a pseudo-Jaffe halo draws its concentration once

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..14201d0 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -111,7 +111,7 @@ class PJaffeSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
@@ -125,7 +125,7 @@ class PJaffeFieldhalo(PJaffeSubhalo):
 
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
-- 
2.43.0


From 5cfaee3ed59cf59a7f373f3a9b54e5ec621419ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 13/68] fix: physical parameters of a pseudo-Jaffe halo
 (division by zero)

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index 14201d0..eff409f 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -35,7 +35,7 @@ class PJaffeSubhalo(Halo):
             concentration = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
-            rho = self._rho(self.mass, ra_kpc, ra_kpc, self.c * rs)
+            rho = self._rho(self.mass, rs, ra_kpc, self.c * rs)
             self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
 
         return self._params_physical
-- 
2.43.0


From b1de502e7428937e320e23c64456a45c1e7bf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 14/68] fix: the split lens model of a CoreCollapsedHaloBH
 replaced the lens model of the halo

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..026f187 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -323,9 +323,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
                                'Rs': Rs_angle,
                         'alpha_Rs': alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'cetner_y': y}
-            self._lenstronomy_args = [kwargs_center, kwargs_envelope]
-        return self._lenstronomy_args, None
+            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
+        return self._lenstronomy_args_split, None
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From 84da836b4ff3fc698927d2554e2638f6897a695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 15/68] fix: rescaling the normalization of a cored (or hybrid)
 halo rescales its lens model

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 5910f59..8fe6027 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -133,7 +133,7 @@ class TNFWCHaloParametric(Halo):
             r_core_angle = rc_kpc / kpc_per_arcsec
             r_trunc_angle = rt_kpc / kpc_per_arcsec
             x, y = np.round(self.x, 4), np.round(self.y, 4)
-            kwargs = [{'alpha_Rs': alpha_Rs,
+            kwargs = [{'alpha_Rs': self._rescale_norm * alpha_Rs,
                        'Rs': Rs_angle,
                        'center_x': x, 'center_y': y,
                        'r_trunc': r_trunc_angle,
@@ -354,8 +354,8 @@ class Hybrid(Halo):
         if not hasattr(self, '_kwargs_lenstronomy'):
             lenstronomy_params_tnfw = deepcopy(self.tnfw_halo.lenstronomy_params[0])
             lenstronomy_params_tnfwc = deepcopy(self.tnfwc_halo.lenstronomy_params[0])
-            lenstronomy_params_tnfw[0]['alpha_Rs'] *= 1-self._rescaling_factor
-            lenstronomy_params_tnfwc[0]['alpha_Rs'] *= self._rescaling_factor
+            lenstronomy_params_tnfw[0]['alpha_Rs'] *= self._rescale_norm * (1-self._rescaling_factor)
+            lenstronomy_params_tnfwc[0]['alpha_Rs'] *= self._rescale_norm * self._rescaling_factor
             self._kwargs_lenstronomy = lenstronomy_params_tnfw + lenstronomy_params_tnfwc
         return self._kwargs_lenstronomy, None
 
-- 
2.43.0


From e8a85632d419ae3995c4b41fa5e9fbe1d605f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 16/68] fix: rescaling the normalization of a halo forgets the
 maximum circular velocity computed before

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index c3546fd..ad1e1e5 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -92,6 +92,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
         elif self._rescaled_once:
             pass
         else:
@@ -104,6 +106,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
 
     @property
     @abstractmethod
-- 
2.43.0


From b0cd236dceab9c57f81303b8fe5b601701dd5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 17/68] fix: the mass of a TNFW halo includes a rescaling
 applied when its truncation radius is first computed

---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..0d81fa2 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -140,9 +140,9 @@ class TNFWFieldHalo(Halo):
         """
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
+        r_trunc = self.profile_args[1]
         rs = self.nfw_params[1]
         rho0 = self.nfw_params[0] * self._rescale_norm
-        r_trunc = self.profile_args[1]
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From fd4e28ae683e1e5e948f6d0ab2df6dae68662cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 18/68] fix: projected mass of a TNFW halo (numpy has no trapz)

---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 0d81fa2..db20bdf 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -94,7 +94,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
-- 
2.43.0


From aa43717c8c632331dbe3dbee9474e5a03ab8a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 19/68] fix: profile_args of a hybrid halo

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 8fe6027..b87f807 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -343,8 +343,9 @@ class Hybrid(Halo):
             self._c = self.tnfw_halo.c
         return self._c
 
+    @property
     def profile_args(self):
-        return [self.tnfw_halo.profile_args(), self.tnfwc_halo.profile_args()]
+        return [self.tnfw_halo.profile_args, self.tnfwc_halo.profile_args]
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From 62e946d4c37e77260c69d0bf30696202610aa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 20/68] fix: setting up the infall model leaves the caller's
 keyword arguments alone

---
 pyHalo/Halos/lens_cosmo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 1bed3f1..7336c77 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,7 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        kwargs_infall_model = dict(kwargs_infall_model)
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
-- 
2.43.0


From 156eab807a63730bf62126298fbcbd44e6b4e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 21/68] fix: TNFW halos made from physical parameters, or by
 the emulator, can be rescaled

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 23 ++++++++++++++++-------
 pyHalo/Halos/HaloModels/TNFWemulator.py   |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..9c13327 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,8 +24,8 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_input[self.KEY_RV] / self._params_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self._params_input if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -52,6 +52,15 @@ class TNFWFromParams(TNFWSubhalo):
 
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
+    @property
+    def params_physical(self):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_input)
+            self._params_physical[self.KEY_RHO_S] = self._params_input[self.KEY_RHO_S] * self._rescale_norm
+        return self._params_physical
 
     @property
     def profile_args(self):
@@ -59,7 +68,7 @@ class TNFWFromParams(TNFWSubhalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            truncation_radius_kpc = self.params_physical[self.KEY_RT]
+            truncation_radius_kpc = self._params_input[self.KEY_RT]
             self._profile_args = (self.c, truncation_radius_kpc)
         return self._profile_args
 
@@ -73,9 +82,9 @@ class TNFWFromParams(TNFWSubhalo):
 
         if not hasattr(self, '_kwargs_lenstronomy'):
 
-            r_t = self.params_physical[self.KEY_RT]
-            r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            r_t = self._params_input[self.KEY_RT]
+            r_s = self._params_input[self.KEY_RS]
+            rho_s = self._params_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
diff --git a/pyHalo/Halos/HaloModels/TNFWemulator.py b/pyHalo/Halos/HaloModels/TNFWemulator.py
index cd8b8e9..c8472c9 100644
--- a/pyHalo/Halos/HaloModels/TNFWemulator.py
+++ b/pyHalo/Halos/HaloModels/TNFWemulator.py
@@ -134,7 +134,7 @@ class TNFWSubhaloEmulator(Halo):
         if not hasattr(self, '_params_physical'):
             [concentration, rt] = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z)
-            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
+            self._params_physical = {'rhos': rhos * self._rescale_norm, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
 
         return self._params_physical
 
-- 
2.43.0


From 1c3fc807296e91f120f2a3d26d20e39f79b9d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 22/68] fix: a galaxy or hybrid halo keeps the infall redshift
 of the halo it was made from

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py |  9 +++++++++
 pyHalo/Halos/HaloModels/sis.py            | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index b87f807..dd9b645 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -298,6 +298,15 @@ class Hybrid(Halo):
                                      self.tnfw_halo.is_subhalo, self.tnfw_halo.lens_cosmo,
                                      self.tnfw_halo._args, self.tnfw_halo.unique_tag)
 
+    @property
+    def z_infall(self):
+        """
+        The infall redshift of the TNFW component
+        """
+        if not hasattr(self, '_z_infall'):
+            self._z_infall = self.tnfw_halo.z_infall
+        return self._z_infall
+
     @property
     def vmax_nfw(self):
         """
diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 2ac5198..f20b360 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -30,6 +30,15 @@ class SIS(Halo):
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
 
+    @property
+    def z_infall(self):
+        """
+        The infall redshift of the halo this one was made from
+        """
+        if not hasattr(self, '_z_infall'):
+            self._z_infall = self._nfw_halo.z_infall
+        return self._z_infall
+
     @property
     def profile_args(self):
         """
@@ -93,6 +102,15 @@ class MassiveGalaxy(Halo):
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
 
+    @property
+    def z_infall(self):
+        """
+        The infall redshift of the halo this one was made from
+        """
+        if not hasattr(self, '_z_infall'):
+            self._z_infall = self._nfw_halo.z_infall
+        return self._z_infall
+
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
         """
         Computes the 3-D density profile of the halo
-- 
2.43.0


From cf7062967a21fff3213ff1dc76b17725def75c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 23/68] fix: ULDM halos along the line of sight use the lensing
 distances of their own redshift

---
 pyHalo/Halos/HaloModels/ULDM.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/ULDM.py b/pyHalo/Halos/HaloModels/ULDM.py
index ad204ac..2b3d497 100644
--- a/pyHalo/Halos/HaloModels/ULDM.py
+++ b/pyHalo/Halos/HaloModels/ULDM.py
@@ -23,6 +23,14 @@ class ULDMFieldHalo(Halo):
         super(ULDMFieldHalo, self).__init__(mass, x, y, r3d, mdef, z, sub_flag,
                                             lens_cosmo_instance, args, unique_tag)
 
+    @property
+    def _sigmacrit_arcsec(self):
+        """
+        Critical surface mass density at the redshift of the halo [M_sun / arcsec^2]
+        """
+        sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
+        return sigma_crit_mpc * (0.001 * self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)) ** 2
+
     @property
     def lenstronomy_ID(self):
         """
@@ -84,8 +92,8 @@ class ULDMFieldHalo(Halo):
         r_c = self._core_radius(m_log10, M, plaw) # in kpc
         rho_c = self._central_density(m_log10, r_c) # in M_solar/pc^3
         r_c *= 10**3 # in pc
-        Sigma_crit = self._lens_cosmo.sigma_crit_lensing * 10**(-12) # in M_solar/parsec^2
-        D_lens = self._lens_cosmo.D_d * 10**6 # in pc
+        Sigma_crit = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source) * 10**(-12) # in M_solar/parsec^2
+        D_lens = self._lens_cosmo.cosmo.D_A_z(self.z) * 10**6 # in pc
         theta_c = r_c / D_lens / const.arcsec # in arcsec
         kappa_0 = 429 * np.pi * rho_c * r_c / (2048 * np.sqrt(0.091) * Sigma_crit) # lensing units
         return [theta_c, kappa_0]
@@ -162,9 +170,9 @@ class ULDMFieldHalo(Halo):
         uldm_params['kappa_0'] /= q
 
         M_nfw = CNFW().mass_3d_lens(r200, cnfw_params['Rs'],
-                    cnfw_params['alpha_Rs']*self._lens_cosmo.sigmacrit, cnfw_params['r_core'])
+                    cnfw_params['alpha_Rs']*self._sigmacrit_arcsec, cnfw_params['r_core'])
         M_uldm = Uldm().mass_3d_lens(r200,
-                    uldm_params['kappa_0']*self._lens_cosmo.sigmacrit, uldm_params['theta_c'])
+                    uldm_params['kappa_0']*self._sigmacrit_arcsec, uldm_params['theta_c'])
 
         if (self._args['scale_nfw']):
             # When scale_nfw is True rescale alpha_Rs to improve mass accuracy
@@ -187,7 +195,7 @@ class ULDMFieldHalo(Halo):
         :return: Evaluated mass constraint equation for CNFW component profile
         """
         r_core = beta * rs
-        sigma_crit = self.lens_cosmo.sigmacrit
+        sigma_crit = self._sigmacrit_arcsec
         args_nfw = (r, rs, alpha_rs*sigma_crit, r_core)
         args_uldm = (r, kappa_0*sigma_crit, theta_c)
 
-- 
2.43.0


From 9cbeba0394a4e3de4b04da169387548dc25ad66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 24/68] fix: batched Galacticus mass loss uses the host
 concentration range of the per-halo model

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..e83833f 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From fa4c410573772147010b6c1ad577557be8648e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 25/68] fix: the per-halo fallback of batch_nfw_concentration
 honours force_no_scatter

---
 pyHalo/Halos/batch_halo_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index e83833f..a517760 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -133,6 +133,8 @@ def batch_nfw_concentration(c_class, m, z, force_no_scatter=False):
         return c_wdm
     if name == 'CONSTANT':
         return np.full(len(m), c_class.nfw_concentration())
+    if force_no_scatter and getattr(c_class, '_scatter', False):
+        return np.array([c_class.nfw_concentration(float(mi), z, force_no_scatter=True) for mi in m])
     return np.array([c_class.nfw_concentration(float(mi), z) for mi in m])
 
 
-- 
2.43.0


From f8ea0efdd7f5b882a669816208d3624c0c02387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 26/68] fix: precompute_realization leaves halos of other types
 and truncation classes untouched

---
 pyHalo/Halos/batch_halo_util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index a517760..3d45509 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -627,17 +627,21 @@ def precompute_realization(realization, kwargs_halo_model=None):
         key = 'truncation_model_subhalos' if is_subhalo else 'truncation_model_field_halos'
         return kwargs_halo_model.get(key, None)
 
-    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo]
-    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo]
-    tnfwc = [h for h in realization.halos if h.mdef == 'TNFWC'
-             and 'sidm_timescale' in getattr(h, '_args', {})]
+    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
+    t_sub = _truncation_for(True)
+    t_field = _truncation_for(False)
+    # only halos whose truncation radius comes from these classes; others (e.g. halos made from physical parameters,
+    # by the emulator, or with another truncation class) are left untouched
+    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo
+                 and getattr(h, '_truncation_class', None) is t_sub]
+    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo
+                  and getattr(h, '_truncation_class', None) is t_field]
+    tnfwc = [h for h in realization.halos if isinstance(h, TNFWCHaloEvolving)]
     nfw = [h for h in realization.halos if h.mdef == 'NFW']
 
-    t_sub = _truncation_for(True)
     if len(tnfw_subs) > 0 and t_sub is not None and \
             getattr(t_sub, 'name', None) in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
         precompute_tnfw_subhalos(tnfw_subs, t_sub)
-    t_field = _truncation_for(False)
     if len(tnfw_field) > 0 and t_field is not None:
         precompute_tnfw_field_halos(tnfw_field, t_field)
     if len(tnfwc) > 0:
-- 
2.43.0


From 1019b651d755df974a2308778f49d9d8bfbab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 27/68] fix: truncation_radius of TruncationGalacticusApproxCDM
 takes the halo mass as a number

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..c02a84a 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -571,7 +571,7 @@ class TruncationGalacticusApproxCDM(object):
         :param z_eval:
         :return:
         """
-        m_bound = self.calculate_mbound(halo_mass)
+        m_bound = halo_mass * self.compute_f_bound
         _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,
                                                         infall_concentration,
                                                         z_eval,
-- 
2.43.0


From f2b9587bc9d92d19a950e7ab40bc1f9f4dba27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 28/68] fix: splashback truncation uses the mean matter density
 at the redshift of the halo

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index c02a84a..bb3c893 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -39,7 +39,7 @@ class TruncationSplashBack(object):
         h = self._lens_cosmo.cosmo.h
         nu200m = peaks.peakHeight(halo_mass * h, z)
         RspR200m_units_rvir, _ = splashback.splashbackModel('RspR200m', nu200m=nu200m, z=z, rspdef='sp-apr-mn')
-        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om0 ** (1./3)
+        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om(z) ** (1./3)
         rt_kpc = RspR200m_units_rvir * r200m_mpc * 1e3
         return rt_kpc
 
-- 
2.43.0


From bf18ddb47a069e12d53f6f348293c42b7bed25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 29/68] fix: the truncation radius of a tidally stripped
 profile uses the requested truncation power

---
 .../galacticus_truncation/transfer_function_density_profile.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..0e68e98 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -835,6 +835,6 @@ def compute_r_te_and_f_t(Mbound, MvirInfall, RvirInfall, cInfall, alpha=1.0, bet
     # in good agreement with the fitting function, but is more reliable where the
     # fitting function is not calibrated to simulations.
     Mbound_dimensionless = Mbound / M0
-    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma)
+    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma, delta)
 
     return r_te, f_t
-- 
2.43.0


From b0af6d215b93a09b46409633065303fd780dbfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 30/68] fix: scatter settings of one WDM concentration model do
 not leak into the next

---
 pyHalo/Halos/concentration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..144dbd1 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,7 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +408,7 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
-- 
2.43.0


From 643071234b0065bcfebdbf9a80e3542c20a089eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 31/68] fix: bound mass and truncation radius of a subhalo come
 from one evaluation of every Galacticus truncation model

---
 pyHalo/Halos/HaloModels/TNFW.py  | 14 +++++++++-----
 pyHalo/Halos/tidal_truncation.py | 17 +++++++++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index db20bdf..db5e6b0 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -269,6 +269,13 @@ class TNFWSubhalo(TNFWFieldHalo):
     Defines a truncated NFW halo that is a subhalo of the host dark matter halo
     """
 
+    # truncation models in which the bound mass determines the truncation radius
+    _galacticus_truncation_models = ['TruncationGalacticus',
+                                     'TruncationGalacticusZinfall',
+                                     'TruncationGalacticusKeeley24',
+                                     'TruncationGalacticusApproxCDM',
+                                     'TruncationGalacticusMilkyWay']
+
     @classmethod
     def simple_setup(cls, mass, f_bound, z_infall, x, y, z, lens_cosmo,
                      concentration_model='DIEMERJOYCE19'):
@@ -322,10 +329,7 @@ class TNFWSubhalo(TNFWFieldHalo):
         Computes the mass inside the virial radius (with truncation effects included)
         :return: the mass inside r = c * r_s
         """
-        if self._truncation_class.name in ['TruncationGalacticus',
-                                            'TruncationGalacticusZinfall',
-                                           'TruncationGalacticusKeeley24',
-                                           'TruncationGalacticusApproxCDM']:
+        if self._truncation_class.name in self._galacticus_truncation_models:
             pass
         else:
             raise Exception('this method can only be called when using one of the TruncationGalacticus class')
@@ -339,7 +343,7 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if self._truncation_class.name in self._galacticus_truncation_models:
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index bb3c893..9fa0f7a 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -244,6 +244,15 @@ class TruncationGalacticusKeeley24(object):
         return self.truncation_radius(halo.mass, halo.c,
                                       halo.time_since_infall, self._chost, halo.z_eval)
 
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius given the bound mass of a halo
+        :param halo: an instance of Halo
+        :param m_bound: the bound mass of the halo
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
     def truncation_radius(self, halo_mass, infall_concentration,
                           time_since_infall, chost, z_eval):
         """
@@ -257,6 +266,14 @@ class TruncationGalacticusKeeley24(object):
         """
         log10c = np.log10(infall_concentration)
         log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
+        return self._truncation_radius(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def _truncation_radius(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+        """
+        Computes the truncation radius at which the bound mass is log10mbound_over_minfall
+        :return: the truncation radius in physical kpc
+        """
+        log10c = np.log10(infall_concentration)
         point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
-- 
2.43.0


From 9917bf4ce3324caaf9f9a6d8f4d274a65ba5b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 32/68] fix: numerical fall-back of the truncated generalized
 NFW mass returns the mass, for arrays too

---
 .../transfer_function_density_profile.py         | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index 0e68e98..f108676 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -644,14 +644,20 @@ def _M_total_generalized_NFW_Truncated_dimensionless(tau, alpha=1.0, beta=3.0, g
         status = 0
 
     if (status == 0):
-        # Use numerical integration.
-        def integral(x):
-            return 4.0 * np.pi * x ** 2 \
+        # Use numerical integration in log(x), split where the slope of the profile changes.
+        def integral(logx, t):
+            x = np.exp(logx)
+            return 4.0 * np.pi * x ** 3 \
                    / x ** gamma \
                    / (1.0 + x ** alpha) ** ((beta - gamma) / alpha) \
-                   / (1.0 + (x / tau) ** delta)
+                   / (1.0 + (x / t) ** delta)
 
-        mass = quad(integral, 0.0, np.inf)
+        def total_mass(t):
+            lo, hi = sorted([np.log(t), 0.0])
+            return quad(integral, lo - 50.0, lo, args=(t,))[0] + quad(integral, lo, hi, args=(t,))[0] \
+                   + quad(integral, hi, hi + 50.0, args=(t,))[0]
+
+        mass = np.vectorize(total_mass, otypes=[float])(tau)[()]
 
     return mass
 
-- 
2.43.0


From d6760e3e3f7c8f0c6cfa4e02d22f56d20245ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 33/68] fix: radius of maximum circular velocity of the alpha=2
 generalized NFW profiles

---
 .../transfer_function_density_profile.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index f108676..93f4e37 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -3,6 +3,7 @@ from functools import lru_cache
 import numpy as np
 from scipy.special import hyp2f1
 from scipy.integrate import quad
+from scipy.optimize import newton
 from scipy.interpolate import interp1d
 
 
@@ -447,7 +448,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         if (beta == 3.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 2.919847688299723
+                    Rmax = 2.919847688299723
                 else:
                     status = 0
             else:
@@ -455,7 +456,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         elif (beta == 4.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 1.825255642519694
+                    Rmax = 1.825255642519694
                 else:
                     status = 0
             else:
-- 
2.43.0


From e6a7b727e93e9bf0007bae086fc6320e5d04f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 34/68] fix: preset model DMEmulator resolves to the function
 that exists

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From 63b39e80354ed30b25e0b3d7d3eaaf2c6c04879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 35/68] fix: correlated structure was placed at the positions
 of the halos of the realization instead of its own

---
 pyHalo/Rendering/correlated_structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..6e26efd 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -65,8 +65,7 @@ class CorrelatedStructure(RenderingClassBase):
             _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
-- 
2.43.0


From 896e7b1ee7461b0bd90c9cabf768feea2034d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 36/68] fix: mass of correlated structure was computed with the
 number of pixels outside the aperture

---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 6e26efd..d7584ed 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -171,7 +171,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero)
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From afe574766012f89f1483f30c51fb9375eb5ab05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 37/68] fix: halos kept their full mass when the last lens
 plane had no halo near the light ray

---
 pyHalo/Rendering/correlated_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index d7584ed..c1f3372 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,11 +58,12 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        rescale_factor = 1. - self._kwargs_mass_function['mass_fraction']
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, halo_inds, _ = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
             # find all halos within rmax of coordinate
             dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
-- 
2.43.0


From c35d6cd8fa95dda78ed5380ba3c7f73b243a357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 38/68] fix: black holes in halos were added within the radius
 of the last image around every image

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 49feec1..97bf300 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1026,9 +1026,10 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_indicies = []
+        r_max_list = np.broadcast_to(r_max, len(x_image_interp_list))
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_list[image_index], x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_indicies += list(_rescale_indicies)
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
@@ -1158,7 +1159,7 @@ class RealizationExtensions(object):
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From fe192c760640dba4c066c7223eabf098d8aa0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 39/68] fix: black holes in halos ignored mass_function_type
 GAUSSIAN

---
 pyHalo/realization_extensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 97bf300..277765a 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1143,17 +1143,19 @@ class RealizationExtensions(object):
                                          mass_sheet_correction=False)
         kwargs_pbh_mass_function = {}
         if mass_function_type == 'DELTA':
+            mass_function_clumpy = DeltaFunction
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
         elif mass_function_type == 'GAUSSIAN':
+            mass_function_clumpy = Gaussian
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['logM_sigma'] = logM_pbh_sigma
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        realization_with_clustering = self.add_correlated_structure(mass_function_clumpy,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
-- 
2.43.0


From ef6b1062e01c4927ac24381686de2031991abbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 40/68] fix: limits on black hole masses were applied to the
 masses of unresolved hosts instead of the black holes

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 277765a..ab648c4 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -143,9 +143,10 @@ class RealizationExtensions(object):
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
             x = x_kpc / kpc_per_arcsec
             y = y_kpc / kpc_per_arcsec
-            for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+            for m_halo, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+                m_bh = min(10 ** log10_mass_maximum, m_halo * 10 ** log10_mass_ratio)
                 if m_bh > 10 ** log10_min_mbh:
-                    mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
+                    mbh = BlackHole(m_bh,
                                     x_bh,
                                     y_bh,
                                     r3d=None,
-- 
2.43.0


From 77a69e6b610a636e3a5805b0394839952f7be2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 41/68] fix: add_cored_halos with TNFWC replaced every halo
 instead of those listed

---
 pyHalo/realization_extensions.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index ab648c4..7eceebe 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -276,20 +276,19 @@ class RealizationExtensions(object):
         truncation_class = None
         args = {'beta': beta}
         for i, halo in enumerate(self._realization.halos):
-            concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
-                                                        halo.c)
-            if core_density_profile == 'CNFW':
-                if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
-                                           halo.is_subhalo, self._realization.lens_cosmo, args,
-                                           truncation_class, concentration_class, halo.unique_tag)
-                    if halo.is_subhalo:
-                        new_halo.set_bound_mass(halo.bound_mass)
-                        new_halo.set_infall_redshift(halo.z_infall)
-                    new_halo_list.append(new_halo)
-                else:
-                    new_halo_list.append(halo)
+            if i not in halo_index_list:
+                new_halo_list.append(halo)
+            elif core_density_profile == 'CNFW':
+                concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
+                                                            halo.c)
+                r3d = None
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                                       halo.is_subhalo, self._realization.lens_cosmo, args,
+                                       truncation_class, concentration_class, halo.unique_tag)
+                if halo.is_subhalo:
+                    new_halo.set_bound_mass(halo.bound_mass)
+                    new_halo.set_infall_redshift(halo.z_infall)
+                new_halo_list.append(new_halo)
             else:
                 new_halo = self.toSIDM_single_halo(halo,
                                                    None,
-- 
2.43.0


From ce47529a4459fe7f68ba1a7add302496010cd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 42/68] fix: toSIDM_from_cross_section raised for realizations
 with objects that are not NFW halos

---
 pyHalo/realization_extensions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 7eceebe..c9d3b3a 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -730,12 +730,12 @@ class RealizationExtensions(object):
                     break
             else:
                 raise Exception('halo mass ' + str(np.log10(halo.mass)) + ' not inside the minimum/maximum mass ranges')
-            rhos, rs, _ = halo.nfw_params
-            if sidm_timescale_function is not None:
-                t_c = sidm_timescale_function(rhos, rs, sigma_eff)
-            else:
-                t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
             if halo.mdef in ['TNFW', 'NFW']:
+                rhos, rs, _ = halo.nfw_params
+                if sidm_timescale_function is not None:
+                    t_c = sidm_timescale_function(rhos, rs, sigma_eff)
+                else:
+                    t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
                 subhalo_evolution_scaling = 10**log10_subhalo_time_scaling
                 new_halo = self.toSIDM_single_halo(halo,
                                                t_c=t_c,
-- 
2.43.0


From f55e10df1de867aa4b0a439eca0d9b564ef13373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 43/68] fix: fluctuations appeared around the wrong image after
 an image without fluctuations

---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index c9d3b3a..66d64b6 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1203,7 +1203,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From 185b960d0469774ba24c630eb507e05497f6d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 44/68] fix: settings of a core collapsed halo were written
 into the arguments shared with other halos

---
 pyHalo/realization_extensions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 66d64b6..5fec100 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -888,7 +888,7 @@ class RealizationExtensions(object):
                 else:
                     truncation_class = halo._truncation_class
                     concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    args_profile = dict(halo.args_profile, **kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -897,7 +897,7 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args_profile,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
@@ -909,7 +909,7 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args_profile,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
-- 
2.43.0


From be227e3c152d4ed64bdb78387b98d8bbda84a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 45/68] fix: a halo converted to GNFW or SPL_CORE drew a new
 concentration and infall redshift

---
 pyHalo/realization_extensions.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 5fec100..9539d95 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -24,6 +24,16 @@ from scipy.special import eval_chebyt
 from scipy.optimize import curve_fit
 from mcfit import Hankel
 
+class _ConcentrationOfHalo(object):
+    """
+    The concentration of another halo, evaluated when it is needed
+    """
+    def __init__(self, halo):
+        self._halo = halo
+
+    def nfw_concentration(self, *args, **kwargs):
+        return self._halo.c
+
 class RealizationExtensions(object):
 
     """
@@ -887,7 +897,7 @@ class RealizationExtensions(object):
 
                 else:
                     truncation_class = halo._truncation_class
-                    concentration_class = halo._concentration_class
+                    concentration_class = _ConcentrationOfHalo(halo)
                     args_profile = dict(halo.args_profile, **kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
@@ -901,6 +911,7 @@ class RealizationExtensions(object):
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
+                        new_halo.set_infall_redshift(halo.z_infall)
                     else:
                         new_halo = fieldhalo_model(halo.mass,
                                                  halo.x,
-- 
2.43.0


From 2625555b5f54c2793f8d2b2b647782610749420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 46/68] fix: subhalos converted to CNFW lost their
 three-dimensional position

---
 pyHalo/realization_extensions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9539d95..f3c3ce9 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -291,8 +291,7 @@ class RealizationExtensions(object):
             elif core_density_profile == 'CNFW':
                 concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
                                                             halo.c)
-                r3d = None
-                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, halo.r3d, halo.z,
                                        halo.is_subhalo, self._realization.lens_cosmo, args,
                                        truncation_class, concentration_class, halo.unique_tag)
                 if halo.is_subhalo:
-- 
2.43.0


From 8c5e9949a8fe32b9dd5bb9e4db933ba33e6e4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 47/68] fix: preset models wrote into the dictionaries of the
 caller, and into their own default arguments

---
 pyHalo/PresetModels/cdm.py | 20 ++++++++++----------
 pyHalo/PresetModels/wdm.py | 22 ++++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..3db02cc 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -83,7 +83,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
@@ -96,8 +96,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     mdef_subhalos = halo_mass_profile
     mdef_field_halos = halo_mass_profile
 
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos, cosmo=pyhalo.astropy_cosmo)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
@@ -115,8 +115,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
@@ -245,14 +245,14 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     mdef_subhalos = 'TNFW'
     mdef_field_halos = 'TNFW'
 
-    kwargs_concentration_model['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model = dict(kwargs_concentration_model, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION MODEL
     model, kwargs_mc = preset_concentration_models(concentration_model, kwargs_concentration_model)
     concentration_model = model(**kwargs_mc)
 
     # SET THE TRUNCATION RADIUS MODEL
-    kwargs_truncation_model['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model = dict(kwargs_truncation_model, lens_cosmo=pyhalo.lens_cosmo)
     model, kwargs_trunc = truncation_models(truncation_model)
     kwargs_trunc.update(kwargs_truncation_model)
     truncation_model = model(**kwargs_trunc)
@@ -358,7 +358,7 @@ def CDMBinned(z_lens, z_source,
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
@@ -394,8 +394,8 @@ def CDMBinned(z_lens, z_source,
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..9ceb5d9 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -91,7 +91,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     # SET THE MASS FUNCTION MODELS FOR SUBHALOS AND FIELD HALOS
@@ -105,10 +105,10 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mass_function_fieldhalos['log_mc'] = log_mc
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_subhalos['log_mc'] = log_mc
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['log_mc'] = log_mc
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos,
+                                               cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos,
+                                                 cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
 
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
@@ -127,8 +127,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
@@ -264,6 +264,8 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     :param include_prompt_cusps: bool; include prompt cusps inside halos
     :return:
     """
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
     for i, param in enumerate(params):
@@ -365,7 +367,7 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     kwargs_model_dlogT_dlogk = {'dlogT_dlogk': dlogT_dlogk}
@@ -390,8 +392,8 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     if c_host is None:
         c_host = concentration_model_CDM.nfw_concentration(10 ** log_m_host, z_lens)
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
-- 
2.43.0


From 0d69b417c7ac3c6a06e9f526cb311331ec6f908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 48/68] fix: preset models with DIRECT_INFALL used a host halo
 of 10^13 solar masses whatever log_m_host

---
 pyHalo/PresetModels/cdm.py | 4 ++--
 pyHalo/PresetModels/wdm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 3db02cc..15a6015 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -82,7 +82,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
@@ -357,7 +357,7 @@ def CDMBinned(z_lens, z_source,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index 9ceb5d9..eadbdd9 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -90,7 +90,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
@@ -366,7 +366,7 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     # WE ALSO SPECIFY THE GEOMETRY OF THE RENDERING VOLUME
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
-    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
+    if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL', 'DIRECT_INFALL_CLUSTER']:
         kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
-- 
2.43.0


From 20ada400af36174df72b59f2ad26def11a181a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 49/68] fix: rendering classes added draw_poisson to the
 dictionary of the caller

---
 pyHalo/Rendering/rendering_class_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/rendering_class_base.py b/pyHalo/Rendering/rendering_class_base.py
index 5a283d9..dea3848 100644
--- a/pyHalo/Rendering/rendering_class_base.py
+++ b/pyHalo/Rendering/rendering_class_base.py
@@ -19,7 +19,7 @@ class RenderingClassBase(object):
         self._mass_function_model = mass_function_model
         self._spatial_distribution_model = spatial_distribution_model
         if 'draw_poisson' not in kwargs_mass_function.keys():
-            kwargs_mass_function['draw_poisson'] = True
+            kwargs_mass_function = dict(kwargs_mass_function, draw_poisson=True)
         self._kwargs_mass_function = kwargs_mass_function
         self._geometry = geometry
         self._lens_cosmo = lens_cosmo
-- 
2.43.0


From 1557add80063e895bfc897bc4ce13deeb1d85cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 50/68] fix: WDM ignored the CDM concentration model of
 BOSE2016_LUDLOW, and one given by the user

---
 pyHalo/PresetModels/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index eadbdd9..4085682 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -113,7 +113,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_subs['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_subs.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
@@ -121,7 +121,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mc_field['cosmo'] = pyhalo.astropy_cosmo
     kwargs_mc_field['log_mc'] = log_mc
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_field['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_field.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From a1bebcdd676761019c9269ace7ae550cf9ff4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 51/68] fix: concentrations and splashback radii were evaluated
 in whichever cosmology had been created last

---
 pyHalo/Halos/concentration.py    | 13 +++++++++++++
 pyHalo/Halos/tidal_truncation.py |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 144dbd1..af60ce4 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -1,4 +1,5 @@
 import numpy as numpy
+from colossus.cosmology import cosmology as colossus_cosmology
 from colossus.halo.concentration import concentration, peaks
 import warnings
 import numpy
@@ -32,6 +33,15 @@ class _ConcentrationCDM(object):
         self._scatter = scatter
         self._scatter_dex = scatter_dex
         self._scatter_dex_z_dep = scatter_dex_z_dep
+        # colossus keeps a single global cosmology; this is the one the model was created with
+        self._colossus_cosmo = colossus_cosmology.current_cosmo
+
+    def _set_colossus_cosmology(self):
+        """
+        Makes colossus use the cosmology of this model, which another instance of Cosmology may have replaced
+        """
+        if self._colossus_cosmo is not None:
+            colossus_cosmology.setCurrent(self._colossus_cosmo)
 
     def nfw_concentration(self, m, z, force_no_scatter=False):
         """
@@ -237,6 +247,7 @@ class ConcentrationDiemerJoyce(_ConcentrationCDM):
         :return: halo concentratioon
         """
         model = 'diemer19'
+        self._set_colossus_cosmology()
         if isinstance(M, float) or isinstance(M, int):
             M_h = M * self._cosmo.h
             c = concentration(M_h, mdef=self._mdef, model=model, z=z)
@@ -289,6 +300,7 @@ class ConcentrationLudlow(_ConcentrationCDM):
         :param z: redshift
         :return: halo concentration
         """
+        self._set_colossus_cosmology()
         if isinstance(M, numpy.ndarray) and isinstance(z, (numpy.ndarray, list)):
             assert len(z) == len(M)
             c = numpy.array([concentration(mi * self._cosmo.h, mdef=self._mdef, model='ludlow16', z=zi)
@@ -336,6 +348,7 @@ class ConcentrationPeakHeight(_ConcentrationCDM):
         :param z: redshift
         :return: halo concentratioon
         """
+        self._set_colossus_cosmology()
         M_h = M * self._cosmo.h
         Mref_h = self._m_pivot * self._cosmo.h
         nu = peaks.peakHeight(M_h, z)
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 9fa0f7a..6241ceb 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -36,6 +36,8 @@ class TruncationSplashBack(object):
         :param lens_cosmo: an instance of LensCosmo
         :return: the truncation radius
         """
+        # colossus evaluates the peak height in its single global cosmology
+        _ = self._lens_cosmo.colossus
         h = self._lens_cosmo.cosmo.h
         nu200m = peaks.peakHeight(halo_mass * h, z)
         RspR200m_units_rvir, _ = splashback.splashbackModel('RspR200m', nu200m=nu200m, z=z, rspdef='sp-apr-mn')
-- 
2.43.0


From 31c5853b22e21940163bfd6b1d41e8d401272859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 52/68] fix: Galacticus outputs that hold a single merger tree
 can be read

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..a73a376 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -138,13 +138,12 @@ class GalacticusUtil():
         node_tree_index = np.zeros(total_count,dtype=int)
         node_tree_order = np.zeros(total_count,dtype=int)
 
-        for n in range(1,len(tree_start)):
-            start,stop = tree_start[n-1],tree_start[n]
-            node_tree_order[start:stop] = n - 1
-            node_tree_index[start:stop] = tree_index[n - 1] 
+        tree_stop = np.append(tree_start[1:],total_count)
 
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        for n in range(len(tree_start)):
+            start,stop = tree_start[n],tree_stop[n]
+            node_tree_order[start:stop] = n
+            node_tree_index[start:stop] = tree_index[n]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From e57f0ed3f4161ef5be796ac22b37deaf3ddac57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 53/68] fix: Galacticus filters use the parameter names of the
 GalacticusUtil passed to them

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..9ecd2f3 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata,galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata,gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-- 
2.43.0


From 6389d971ca8820cec55959564b269b573383c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 54/68] fix: nodedata_select_subhalo selects the node with the
 given id

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index 9ecd2f3..ca8f2d9 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
-- 
2.43.0


From db36614ac81769e2fc49c767f371f82aa5e7c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 55/68] fix: DMFromGalacticus renders no subhalos of its own
 when the preset model has another default amplitude

---
 pyHalo/PresetModels/external.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..c465d5a 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -1,3 +1,4 @@
+from inspect import signature
 import numpy as np
 from scipy.spatial.transform import Rotation
 from pyHalo.Halos.HaloModels.TNFWFromParams import TNFWFromParams
@@ -89,11 +90,16 @@ def DMFromGalacticus(galacticus_hdf5,z_source,cone_opening_angle_arcsec,tree_ind
 
     # we create a realization of only line-of-sight halos by setting sigma_sub = 0.0
     kwargs_los['sigma_sub'] = 0.0
+    preset_los = preset_model_from_name(preset_model_los)
+    for name in ('log10_sigma_sub', 'log10_dNdA'):
+        # these take precedence over sigma_sub
+        if name in signature(preset_los).parameters:
+            kwargs_los[name] = None
     kwargs_los["cone_opening_angle_arcsec"] = cone_opening_angle_arcsec
     kwargs_los["z_lens"] = z_lens
     kwargs_los["z_source"] = z_source
 
-    halos_LOS = preset_model_from_name(preset_model_los)(**kwargs_los)
+    halos_LOS = preset_los(**kwargs_los)
 
     # get lens_cosmo class from class containing LOS objects; note that this will work even if there are no LOS halos
     lens_cosmo = halos_LOS.lens_cosmo
-- 
2.43.0


From f317d45c08a62fa85655629c65cd7eb542288ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 56/68] fix: JointLOSWithEmulator renders line of sight halos
 over the opening angle of the subhalos

---
 pyHalo/PresetModels/external.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index c465d5a..a5911ab 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -248,6 +248,7 @@ def JointLOSWithEmulator(z_lens,
     emulator_subhalos = DMSubhalosFromEmulator(z_lens, z_source, emulator_data_function, cone_opening_angle_arcsec)
     from pyHalo.preset_models import preset_model_from_name
     preset_model_function = preset_model_from_name(preset_model_name_LOS)
-    los = preset_model_function(z_lens, z_source, **kwargs_preset_model)
+    los = preset_model_function(z_lens, z_source, cone_opening_angle_arcsec=cone_opening_angle_arcsec,
+                                **kwargs_preset_model)
     return emulator_subhalos.join(los)
 
-- 
2.43.0


From e62fc5bc2cbfd26ae88f32cc95fd85b8b32fe4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 57/68] fix: kpc_proper_per_asec is defined outside the
 interpolated range, so that sources beyond redshift 4 can be used

---
 pyHalo/Cosmology/cosmology.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 373587e..f8c8ea3 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -91,10 +91,17 @@ class Cosmology(object):
             zf = float(z)
             v = self._cache_kpc.get(zf)
             if v is None:
-                v = np.float64(self._kpc_per_asec_interp(zf))   # numpy scalar, not float()
+                try:
+                    v = np.float64(self._kpc_per_asec_interp(zf))   # numpy scalar, not float()
+                except ValueError:
+                    # outside the range of the interpolation
+                    v = np.float64(1000 * self.arcsec * self.D_A_z(zf))
                 self._cache_kpc[zf] = v
             return v
-        return self._kpc_per_asec_interp(z)
+        try:
+            return self._kpc_per_asec_interp(z)
+        except ValueError:
+            return 1000 * self.arcsec * self.D_A_z(z)
 
     @property
     def colossus(self):
-- 
2.43.0


From e35676587f36ddb96c338782301191d5ad2d67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 58/68] fix: the colossus cosmology follows the astropy
 instance passed to Cosmology

---
 pyHalo/Cosmology/cosmology.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index f8c8ea3..8c3a674 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -220,11 +220,17 @@ class Cosmology(object):
 
             colossus_kwargs = {}
             keys = ['H0', 'Om0', 'Ob0', 'ns', 'sigma8', 'power_law']
+            # parameters shared with astropy follow the astropy instance, which may have been passed in
+            from_astropy = {'H0': self.astropy.H0.value, 'Om0': self.astropy.Om0}
+            if self.astropy.Ob0:
+                from_astropy['Ob0'] = self.astropy.Ob0
             for key in keys:
-                if key not in cosmo_kwargs.keys():
-                    colossus_kwargs.update({key: cosmo_defaults(key)})
-                else:
+                if key in cosmo_kwargs.keys():
                     colossus_kwargs.update({key: cosmo_kwargs[key]})
+                elif key in from_astropy.keys():
+                    colossus_kwargs.update({key: from_astropy[key]})
+                else:
+                    colossus_kwargs.update({key: cosmo_defaults(key)})
             self._colossus_cosmo = cosmology.setCosmology('custom', colossus_kwargs)
 
         return self._colossus_cosmo
-- 
2.43.0


From 2ea93c09ecbad8cd3618ce7b5ea46167effa27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 59/68] fix: halo_age accepts arrays of redshifts

---
 pyHalo/Cosmology/cosmology.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 8c3a674..7e654b6 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -119,10 +119,8 @@ class Cosmology(object):
                 self._cache_age[key] = v
             return v
         halo_form = self._halo_age_interp(zform)
-        if z > zform:
-            return 0
-        else:
-            return self._halo_age_interp(z) - halo_form
+        z = np.asarray(z)
+        return np.where(z > zform, 0.0, self._halo_age_interp(z) - halo_form)
 
     @property
     def _halo_age_interp(self):
-- 
2.43.0


From a7c8c9fd611fc5df139f4be6fc5b283c1e3b2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 60/68] fix: D_C_z accepts lists of redshifts outside the
 interpolated range

---
 pyHalo/Cosmology/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 7e654b6..eb2131d 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -84,7 +84,7 @@ class Cosmology(object):
         try:
             return self._DC_interp(z)
         except:
-            return self.D_A_z(z) / self.scale_factor(z)
+            return self.D_A_z(z) / self.scale_factor(np.asarray(z))
 
     def kpc_proper_per_asec(self, z):
         if np.ndim(z) == 0:
-- 
2.43.0


From 8abc80c7978fa2d633c25e3f76907ed16f86a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 61/68] fix: the effective age of a SIDM halo starts at its
 formation redshift, whatever that is

---
 pyHalo/Halos/lens_cosmo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 7336c77..c149acd 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -418,8 +418,8 @@ class LensCosmo(object):
         :param zform: formation redshift
         :return: "age" in Gyr
         """
-        if z_infall > 10:
-            z_infall = 10
+        if z_infall > zform:
+            z_infall = zform
         time_formation_to_infall = self.cosmo.halo_age(z_infall, zform=zform)
         time_infall_to_z = self.cosmo.halo_age(z, zform=z_infall)
         return time_formation_to_infall + lambda_t * time_infall_to_z
-- 
2.43.0


From 3c6e3e0fc041ea76e3bb55b4cc62e27dc1319d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 62/68] fix: ray paths through a lens model with an array of
 redshifts

---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 77ed2d8..4540884 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -189,7 +189,7 @@ def compute_comoving_ray_path(x_coordinate, y_coordinate, lens_model, kwargs_len
         if cosmo is None:
             cosmo = Cosmology()
 
-        redshift_list = lens_model.redshift_list + [zsource]
+        redshift_list = list(lens_model.redshift_list) + [zsource]
         zstep = lenscone_default.default_z_step
         finely_sampled_redshifts = np.linspace(zstep, zsource - zstep, 50)
         all_redshifts = np.unique(np.append(redshift_list, finely_sampled_redshifts))
-- 
2.43.0


From b811c39be82c9c9514b48125995c14e8ed285929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:12 +0000
Subject: [PATCH 63/68] fix: ITSampling draws a single sample

---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 4540884..14dd32f 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -44,7 +44,7 @@ class ITSampling(object):
         u = np.random.uniform(self._umin, self._umax, int(n_samples))
         samples_out = self._cdf_inverse(u)
         if n_samples == 1:
-            return float(samples_out)
+            return float(np.squeeze(samples_out))
         else:
             return np.squeeze(samples_out)
 
-- 
2.43.0


From a29db666f04fddac6c74a19254366a8ba6b7a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 64/68] Revert "fix: the colossus cosmology follows the astropy
 instance passed to Cosmology"

This reverts commit e35676587f36ddb96c338782301191d5ad2d67db.
---
 pyHalo/Cosmology/cosmology.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index eb2131d..3ddb657 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -218,17 +218,11 @@ class Cosmology(object):
 
             colossus_kwargs = {}
             keys = ['H0', 'Om0', 'Ob0', 'ns', 'sigma8', 'power_law']
-            # parameters shared with astropy follow the astropy instance, which may have been passed in
-            from_astropy = {'H0': self.astropy.H0.value, 'Om0': self.astropy.Om0}
-            if self.astropy.Ob0:
-                from_astropy['Ob0'] = self.astropy.Ob0
             for key in keys:
-                if key in cosmo_kwargs.keys():
-                    colossus_kwargs.update({key: cosmo_kwargs[key]})
-                elif key in from_astropy.keys():
-                    colossus_kwargs.update({key: from_astropy[key]})
-                else:
+                if key not in cosmo_kwargs.keys():
                     colossus_kwargs.update({key: cosmo_defaults(key)})
+                else:
+                    colossus_kwargs.update({key: cosmo_kwargs[key]})
             self._colossus_cosmo = cosmology.setCosmology('custom', colossus_kwargs)
 
         return self._colossus_cosmo
-- 
2.43.0


From 074ba4fad54be36b074c59572b9578e2a40d68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 65/68] fix: density_profile_3d of NFW and TNFW halos follows
 the rescaling of the halo, as mass_3d and the lens model do

---
 pyHalo/Halos/HaloModels/NFW.py            | 2 +-
 pyHalo/Halos/HaloModels/TNFW.py           | 2 +-
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW.py b/pyHalo/Halos/HaloModels/NFW.py
index 3c40c16..34e3f02 100644
--- a/pyHalo/Halos/HaloModels/NFW.py
+++ b/pyHalo/Halos/HaloModels/NFW.py
@@ -33,7 +33,7 @@ class NFWFieldHalo(Halo):
         """
         rhos, rs, _ = self.lens_cosmo.NFW_params_physical(self.mass, self.c, self.z_eval)
         x = r/rs
-        return scaling * rhos / x / (1 + x) ** 2
+        return scaling * self._rescale_norm * rhos / x / (1 + x) ** 2
 
     @property
     def lenstronomy_ID(self):
diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index db5e6b0..ea899fa 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -129,7 +129,7 @@ class TNFWFieldHalo(Halo):
         tau = rt / rs
         x = r / rs
         rho_nfw = rhos / x / (1 + x) ** 2
-        return scaling * rho_nfw * tau ** 2 / (tau ** 2 + x ** 2)
+        return scaling * self._rescale_norm * rho_nfw * tau ** 2 / (tau ** 2 + x ** 2)
 
     def mass_3d(self, rmax, profile_args=None):
         """
diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index 9c13327..9a8aadd 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_input if params_physical is None else params_physical
+        _params = self.params_physical if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
-- 
2.43.0


From ca8be002aa8ed6b5d2ffaf7ccdf4df000c9444eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 66/68] fix: densities of a hybrid halo follow its rescaling,
 as its lens model does

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index dd9b645..bd9b694 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -398,7 +398,7 @@ class Hybrid(Halo):
         """
         rho_tnfw = self.tnfw_halo.density_profile_3d_lenstronomy(r)
         rho_tnfwc = self.tnfwc_halo.density_profile_3d_lenstronomy(r)
-        return rho_tnfw * (1-self._rescaling_factor) + rho_tnfwc * self._rescaling_factor
+        return self._rescale_norm * (rho_tnfw * (1-self._rescaling_factor) + rho_tnfwc * self._rescaling_factor)
 
     def density_profile_3d(self, r, profile_args=None):
         """
@@ -408,7 +408,7 @@ class Hybrid(Halo):
         """
         rho_tnfw = self.tnfw_halo.density_profile_3d(r)
         rho_tnfwc = self.tnfwc_halo.density_profile_3d(r)
-        return rho_tnfw * (1-self._rescaling_factor) + rho_tnfwc * self._rescaling_factor
+        return self._rescale_norm * (rho_tnfw * (1-self._rescaling_factor) + rho_tnfwc * self._rescaling_factor)
 
 def evolve_profile(t, rs_0):
 
-- 
2.43.0


From 8b041da7d7acf7d99b8c4d4ac4657e2df836fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 67/68] fix: mass_3d and nfw_params of a TNFWFromParams halo
 use the parameters the halo was created with

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index 9a8aadd..e6df0ad 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -52,6 +52,13 @@ class TNFWFromParams(TNFWSubhalo):
 
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
+    @property
+    def nfw_params(self):
+        """
+        The nfw profile parameters this halo was created with, see documentation in base class (Halos/halo_base.py)
+        """
+        return self._params_input[self.KEY_RHO_S], self._params_input[self.KEY_RS], self._params_input[self.KEY_RV]
+
     @property
     def params_physical(self):
         """
-- 
2.43.0


From bd6c6ad9aba1fe032614a84a31af70b43460f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:04 +0000
Subject: [PATCH 68/68] fix: mass_2d of a core collapsed halo multiplied an
 area in kpc^2 by a density per arcsec^2

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 026f187..8c76f33 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -108,7 +108,8 @@ class CoreCollapsedHalo(Halo):
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = (sigma_crit_kpc *
                              self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z) ** 2)
-        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_arcsec
+        r_arcsec = r / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
+        return np.trapezoid(kappa * 2 * np.pi * r_arcsec, r_arcsec) * sigma_crit_arcsec
 
     @property
     def c(self):
-- 
2.43.0

