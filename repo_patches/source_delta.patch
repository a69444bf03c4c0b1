From b581526335d93e6e6ca1b66138fa1cb7fb659f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:23 +0000
Subject: [PATCH 01/22] fix: re-collect dependencies of cached quantities when
 they are re-evaluated

Quantities choose what they depend on from other parameters (hmcode_ingredients,
mdef_model, matter_power_lin, ...), but hmf indexes dependencies only on first
evaluation, so later updates of newly relevant parameters were ignored, and
changing a switch together with another parameter could raise a KeyError.
---
 src/onepower/_cache.py | 39 +++++++++++++++++++++++++++++++++++++++
 src/onepower/bnl.py    |  2 +-
 src/onepower/hmi.py    |  2 +-
 src/onepower/ia.py     |  2 +-
 src/onepower/pk.py     |  2 +-
 5 files changed, 43 insertions(+), 4 deletions(-)
 create mode 100644 src/onepower/_cache.py

diff --git a/src/onepower/_cache.py b/src/onepower/_cache.py
new file mode 100644
index 0000000..b931a77
--- /dev/null
+++ b/src/onepower/_cache.py
@@ -0,0 +1,39 @@
+"""
+Dependency-tracked caching for the frameworks in this package.
+
+Thin layer over the caching machinery of hmf, which collects the parameters a quantity
+depends on only the first time the quantity is evaluated.
+Many of our quantities select what they depend on from other parameters
+(e.g. :math:`\\delta_c` depends on cosmology only for some ``hmcode_ingredients``),
+so the dependencies have to be collected anew every time the quantity is re-evaluated.
+"""
+
+from functools import update_wrapper
+
+from hmf._internals._cache import cached_quantity as _hmf_cached_quantity
+from hmf._internals._cache import hidden_loc, parameter
+
+__all__ = ['cached_quantity', 'parameter']
+
+
+def cached_quantity(f):
+    """
+    Cache a quantity until any of the parameters used in its last evaluation change.
+
+    Drop in replacement for the hmf decorator of the same name, that re-indexes
+    the dependencies of an outdated quantity whenever it is re-evaluated.
+    """
+    name = f.__name__
+    prop = _hmf_cached_quantity(f)
+
+    def _get_property(self):
+        recalc = getattr(self, hidden_loc(self, 'recalc'))
+        if recalc.get(name, False):
+            # Outdated: drop the old index, so that hmf treats it as not yet evaluated.
+            del recalc[name]
+            getattr(self, hidden_loc(self, 'recalc_prop_par')).pop(name, None)
+            getattr(self, hidden_loc(self, 'active_q')).discard(name)
+        return prop.fget(self)
+
+    update_wrapper(_get_property, f)
+    return property(_get_property, None, prop.fdel)
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..1d87883 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -9,7 +9,7 @@ import numpy as np
 from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from ._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 
 try:
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..4a423ed 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,7 +16,7 @@ from scipy.integrate import quad, simpson, solve_ivp
 from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
-from hmf._internals._cache import cached_quantity, parameter
+from ._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..e4d94ba 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -12,7 +12,7 @@ from scipy.integrate import simpson
 from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
-from hmf._internals._cache import cached_quantity, parameter
+from ._cache import cached_quantity, parameter
 from hmf._internals._framework import Framework
 
 
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..f14fac3 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -41,7 +41,7 @@ from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from ._cache import cached_quantity, parameter
 from hmf._internals._framework import get_mdl
 from hmf.density_field.transfer_models import EH_NoBAO as Tk_EH_nowiggle
 
-- 
2.43.0


From 6fd476899b6d632b290ecc17f4bf5ccee3759c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:23 +0000
Subject: [PATCH 02/22] fix: omega_m follows updates of the density parameters

---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 4a423ed..8e1e29a 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From 416a864a6fcdfaf45a91d121b019473f6f63e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:23 +0000
Subject: [PATCH 03/22] fix: UpsampledSpectra fractions and models follow
 updates

---
 src/onepower/add.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..596ce78 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,10 +1,9 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
 from hmf._internals._framework import Framework
 
+from ._cache import cached_quantity, parameter
 from .pk import PowerSpectrumResult, Spectra
 
 
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From 765f244cdafa58337f761f22089254b6dec12d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:34 +0000
Subject: [PATCH 04/22] fix: halo model and response matter power spectra do
 not share a cache slot

hmf stores a cached quantity under its name with leading underscores collapsed, so
_power_spectrum_mm and power_spectrum_mm overwrote each other: in response mode the
results depended on which spectra were read before.
---
 src/onepower/pk.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index f14fac3..3c33576 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1541,7 +1541,7 @@ class Spectra(HaloModelIngredients):
         return PowerSpectrumResult(pk_tot=self._pk_lin[np.newaxis, :, :])
 
     @cached_quantity
-    def _power_spectrum_mm(
+    def _halo_model_mm(
         self,
     ):
         """
@@ -1650,7 +1650,7 @@ class Spectra(HaloModelIngredients):
                 pk_tot=pk_tot,
                 galaxy_linear_bias=None,
             )
-        return self._power_spectrum_mm
+        return self._halo_model_mm
 
     # --------------------------------  Galaxy spectra specific funtions ------------------------------
 
@@ -1966,9 +1966,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2059,9 +2059,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2432,9 +2432,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_sm_1h + pk_cm_2h + pk_sm_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2555,9 +2555,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_ss_1h + pk_cc_2h + pk_ss_2h + pk_cs_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2653,9 +2653,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_cs_1h + pk_cs_2h + pk_cc_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
-- 
2.43.0


From 7fc77076b3a5eaccd83375eaec56f341af66c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:25 +0000
Subject: [PATCH 05/22] fix: building the halo models does not alter
 halo_profile_params

hmf merges updates of dictionary parameters in place, which wrote the eta_bloat of the
last redshift into the cached halo_profile_params.
---
 src/onepower/hmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 8e1e29a..6cdfeed 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1110,7 +1110,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
-- 
2.43.0


From 679838d37e6910216ac738be934dd74a31a52c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:25 +0000
Subject: [PATCH 06/22] fix: alignment amplitudes follow updates of beta_two

---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index e4d94ba..b1c1955 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -168,6 +168,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        A second slope for the central power law.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From 181b95915477e3d391ea24370c98503fde59e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 07/22] fix: setting up the alignment class does not alter
 align_params

---
 src/onepower/pk.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 3c33576..e126d99 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From 359b92fb2d0ff3b846112112013e5e808644a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 08/22] fix: satellite alignment uses the virial radius of each
 redshift

The virial radius at the first redshift was used for all of them, so that the result at
a given redshift depended on the other requested redshifts.
---
 src/onepower/ia.py | 8 +++++---
 src/onepower/pk.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index b1c1955..6757f2d 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -472,7 +472,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
     r_s_in : array_like
         Scale radius.
     rvir_in : array_like
-        Virial radius.
+        Virial radius, as a function of mass or of redshift and mass.
     n_hankel : int, optional
         Number of steps in the Hankel transform integration.
     nmass : int, optional
@@ -965,6 +965,8 @@ class SatelliteAlignment(AlignmentAmplitudes):
             * self.r_s**3.0
             * (np.log(1.0 + self.c) - self.c / (1.0 + self.c))
         )
+        # The virial radius can be given as a function of mass only
+        rvir = np.broadcast_to(self.rvir, self.r_s.shape)
         uk_l = np.zeros(
             [self.ell_values.size, self.z_vec.size, self.mass.size, self.k_vec.size]
         )
@@ -977,7 +979,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                             self.gamma_r_nfw_profile(
                                 x,
                                 self.r_s[jz, im],
-                                self.rvir[im],
+                                rvir[jz, im],
                                 self.gamma_1h_amp[jz],
                                 self.gamma_1h_slope,
                                 truncate=self.truncate,
@@ -1003,7 +1005,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
                     self.gamma_r_nfw_profile(
                         r[np.newaxis, np.newaxis, :],
                         self.r_s[:, :, np.newaxis],
-                        self.rvir[np.newaxis, :, np.newaxis],
+                        rvir[:, :, np.newaxis],
                         self.gamma_1h_amp[:, np.newaxis, np.newaxis],
                         self.gamma_1h_slope,
                         truncate=self.truncate,
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index e126d99..24b11ee 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2088,7 +2088,7 @@ class Spectra(HaloModelIngredients):
             'mass_in': self.mass,
             'c_in': self.conc_cen,
             'r_s_in': self.r_s_cen,
-            'rvir_in': self.rvir_cen[0],
+            'rvir_in': self.rvir_cen,
             'method': 'fftlog',
         }
         return SatelliteAlignment(**align_params)
-- 
2.43.0


From bbc13d594205fb778058453369d486d2d631bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 09/22] fix: downsampling always keeps the last halo mass of
 every quantity

Whether the last element had to be appended was decided from the values of each
quantity, so that masses and profiles could end up with different lengths.
---
 src/onepower/ia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 6757f2d..43f0ced 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -677,11 +677,11 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
             downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
+            if (quantity.size - 1) % downsample_factor != 0:
                 downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
         else:
             downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
+            if (quantity.shape[1] - 1) % downsample_factor != 0:
                 downsampled_quantity = np.concatenate(
                     (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
                 )
-- 
2.43.0


From b5f52b7886fc0233d7fd6135ad7a670a92f238cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 10/22] fix: HOD settings that are not given take their default
 values

The settings are also no longer shared with the caller, with other models or with the
module level defaults.
---
 src/onepower/hod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..3ba7d61 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -84,7 +84,7 @@ class HaloOccupationDistribution(Component):
         self.cosmo = cosmo
         self.mass = mass[np.newaxis, np.newaxis, :]
         self.z_vec = z_vec
-        self.hod_settings = hod_settings or hod_settings_defaults
+        self.hod_settings = {**hod_settings_defaults, **(hod_settings or {})}
         self.dndlnm = dndlnm
         self.halo_bias = halo_bias
 
-- 
2.43.0


From 0162ce3185550abe69faab56694f9182c3aee8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 11/22] fix: default gas distribution pivot mass is 10^13.87,
 not 13.87

mb is compared to the halo mass directly.
---
 src/onepower/pk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 24b11ee..062135e 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -82,7 +82,7 @@ class Spectra(HaloModelIngredients):
     response : bool, optional
         Whether to calculate the resulting power spectra in response formalism.
     mb : float, optional
-        Gas distribution mass pivot parameter.
+        Gas distribution mass pivot parameter in units of M_sun/h.
     dewiggle : bool, optional
         Whether to dewiggle the power spectrum.
     nonlinear_mode : str, optional
@@ -152,7 +152,7 @@ class Spectra(HaloModelIngredients):
         compute_observable=False,
         matter_power_lin=None,
         matter_power_nl=None,
-        mb=13.87,
+        mb=10.0**13.87,
         beta_nl=None,
         one_halo_ktrunc=0.1,
         two_halo_ktrunc=2.0,
-- 
2.43.0


From 89cd9649f26187d9c52c4c7abbd85bd678d37a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:26 +0000
Subject: [PATCH 12/22] fix: dewiggling rejects k arrays that are not
 log-spaced

The condition was always false.
---
 src/onepower/pk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 062135e..12138d6 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2719,10 +2719,10 @@ class Spectra(HaloModelIngredients):
         ndarray
             The wiggle component of the power spectrum.
         """
-        if not np.isclose(np.all(np.diff(k) - np.diff(k)[0]), 0.0):
-            raise ValueError('Dewiggle only works with linearly-spaced k array')
-
         dlnk = np.log(k[1] / k[0])
+        if not np.allclose(np.diff(np.log(k)), dlnk, rtol=1e-3, atol=0.0):
+            raise ValueError('Dewiggle only works with log-spaced k array')
+
         sigma = sigma_dlnk / dlnk
 
         Pk_nowiggle = (k**ns) * np.exp(self.Tk_EH_nowiggle_lnt(np.log(k))) ** 2.0
-- 
2.43.0


From 128e623513a1341508873a2caa04ae6273a9ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:09 +0000
Subject: [PATCH 13/22] fix: parameters hold their own copy of arrays and
 dictionaries

Updating a dictionary parameter wrote into the dictionary of the caller and of every
other model that was given the same one, and an array that was changed in place compared
equal to itself when passed to update, which left all results outdated.
---
 src/onepower/_cache.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/onepower/_cache.py b/src/onepower/_cache.py
index b931a77..9dc1c3a 100644
--- a/src/onepower/_cache.py
+++ b/src/onepower/_cache.py
@@ -6,12 +6,17 @@ depends on only the first time the quantity is evaluated.
 Many of our quantities select what they depend on from other parameters
 (e.g. :math:`\\delta_c` depends on cosmology only for some ``hmcode_ingredients``),
 so the dependencies have to be collected anew every time the quantity is re-evaluated.
+It also compares every new value of a parameter to the object that was set before, and merges
+dictionaries into it, so parameters have to hold their own copy of mutable values.
 """
 
-from functools import update_wrapper
+import numpy as np
+from copy import deepcopy
+from functools import update_wrapper, wraps
 
 from hmf._internals._cache import cached_quantity as _hmf_cached_quantity
-from hmf._internals._cache import hidden_loc, parameter
+from hmf._internals._cache import hidden_loc
+from hmf._internals._cache import parameter as _hmf_parameter
 
 __all__ = ['cached_quantity', 'parameter']
 
@@ -37,3 +42,22 @@ def cached_quantity(f):
 
     update_wrapper(_get_property, f)
     return property(_get_property, None, prop.fdel)
+
+
+def parameter(kind):
+    """
+    Indicate a parameter of a calculation.
+
+    Drop in replacement for the hmf decorator of the same name, that does not share
+    arrays, dictionaries and lists with the caller.
+    """
+
+    def param(f):
+        @wraps(f)
+        def _set_value(self, val):
+            val = f(self, val)
+            return deepcopy(val) if isinstance(val, dict | list | np.ndarray) else val
+
+        return _hmf_parameter(kind)(_set_value)
+
+    return param
-- 
2.43.0


From 9829b516238e49675d791515855051b4c9fa51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:38 +0000
Subject: [PATCH 14/22] fix: interface applies the requested central and
 satellite alignment dependence

The central option decided the satellite parameters and vice versa, and neither was
passed on to the alignment model, which then rejected everything but 'halo_mass'.
---
 cosmosis_modules/onepower_interface.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..b28328d 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -905,8 +905,11 @@ def execute(block, config):
     # TO-DO: for aligments at least we need to split the calculation in red/blue and add here!
 
     if alignment:
-        align_params = {}
-        if central_IA == 'halo_mass':
+        align_params = {
+            'central_ia_depends_on': central_IA,
+            'satellite_ia_depends_on': satellite_IA,
+        }
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -924,7 +927,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -974,7 +977,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -992,7 +995,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From a76695d6a9b0190dcf594ff358ddc24490113337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:38 +0000
Subject: [PATCH 15/22] fix: interface accepts observables_file_hod

The number of bins was taken from obs_min, which is not there when the observables are
read from a file.
---
 cosmosis_modules/onepower_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index b28328d..ff587a0 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,8 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        # There is always a single bin when the observables are read from a file
+        nbins = len(hod_settings.get('obs_min', [None]))
     else:
         hod_settings = {}
         hod_settings_mm = {}
-- 
2.43.0


From c817ef11fc617e37e9282f9e266b2cb318723d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:48 +0000
Subject: [PATCH 16/22] fix: every redshift uses its own overdensity

hmf merges updates of dictionary parameters in place, which overwrote the overdensity of
the first redshift with the one of the last: with the HMCode ingredients the satellite
profiles at the first redshift used it, and so did any re-evaluation.
---
 src/onepower/hmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 6cdfeed..6afb507 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1119,7 +1119,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From 97bc64b209629a14f59abedd000e056478096bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:15 +0000
Subject: [PATCH 17/22] fix: dictionary parameters that are None can be updated

---
 src/onepower/_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/onepower/_cache.py b/src/onepower/_cache.py
index 9dc1c3a..3de5a4f 100644
--- a/src/onepower/_cache.py
+++ b/src/onepower/_cache.py
@@ -56,6 +56,10 @@ def parameter(kind):
         @wraps(f)
         def _set_value(self, val):
             val = f(self, val)
+            loc = hidden_loc(self, f.__name__)
+            if isinstance(val, dict) and val and getattr(self, loc, val) is None:
+                # hmf merges dictionaries into the old value, so there has to be one.
+                setattr(self, loc, {})
             return deepcopy(val) if isinstance(val, dict | list | np.ndarray) else val
 
         return _hmf_parameter(kind)(_set_value)
-- 
2.43.0


From 49bd293b62547bff5c8d4508d53eb775fe088bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:58 +0000
Subject: [PATCH 18/22] fix: label the projected correlations with the
 separations they belong to

The FFTLog grid is centred between its first and last point, which for
indices starting at zero is (n - 1) / 2. All separations were one grid
step too small.
---
 cosmosis_modules/pk_to_real/pk_to_real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real.py b/cosmosis_modules/pk_to_real/pk_to_real.py
index 5f3f228..855e75a 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real.py
@@ -111,7 +111,7 @@ class Transformer:
         self.upper = upper
 
         # work out the effective rp values.
-        nc = 0.5 * (n + 1)
+        nc = 0.5 * (n - 1)
         log_kmin = np.log(k_min)
         log_kmax = np.log(k_max)
         log_kmid = 0.5 * (log_kmin + log_kmax)
-- 
2.43.0


From 94d4b9d6853a6063dda1b62e83dd5cec9561811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 19/22] fix: keep Colossus concentrations at the cosmology of
 their model

Colossus has one global cosmology, that of the relation created last: profiles read from a model after another one was used came out with the concentrations of the other cosmology.
---
 src/onepower/hmi.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 6afb507..668b9c8 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -36,6 +36,31 @@ DMHaloModel.ERROR_ON_BAD_MDEF = False
 VALID_HMCODE_INGREDIENTS = ['mead2020_feedback', 'mead2020', 'fit', None]
 
 
+def colossus_concentration(model):
+    """
+    Concentration-mass relation from Colossus that keeps to its own cosmology.
+
+    Colossus knows only one, global, cosmology, which is the one of the relation created last.
+
+    Parameters
+    ----------
+    model : str
+        Name of the Colossus concentration model.
+    """
+    from colossus.cosmology import cosmology
+
+    class ColossusConcentration(make_colossus_cm(model)):
+        def __init__(self, *args, **kwargs):
+            super().__init__(*args, **kwargs)
+            self._colossus_cosmo = cosmology.getCurrent()
+
+        def cm(self, m, z=0):
+            cosmology.setCurrent(self._colossus_cosmo)
+            return super().cm(m, z)
+
+    return ColossusConcentration
+
+
 class SOVirial_Mead(SphericalOverdensity):
     """
     SOVirial overdensity definition from Mead et al. (2021).
@@ -987,7 +1012,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_dm)
+                    colossus_concentration(self.halo_concentration_model_dm)
                 )
         return val
 
@@ -1010,7 +1035,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_sat)
+                    colossus_concentration(self.halo_concentration_model_sat)
                 )
         return val
 
-- 
2.43.0


From 1d7408f669d5c80fa3044c8a3b5eb89540566ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 20/22] fix: growth factor stays an array for a single redshift

hmf returns a number for the default CAMB growth at one redshift, on which the alignment spectra fail.
---
 src/onepower/hmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 668b9c8..85b58d4 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1558,7 +1558,7 @@ class HaloModelIngredients(CosmologyBase):
         array_like
             growth factor at z
         """
-        return self._hmf_cen[0].growth.growth_factor(self.z_vec)
+        return np.atleast_1d(self._hmf_cen[0].growth.growth_factor(self.z_vec))
 
     # Maybe implement at some point?
     # Rnl = DM_hmf.filter.mass_to_radius(DM_hmf.mass_nonlinear, DM_hmf.mean_density0)
-- 
2.43.0


From 42fa0d18b20bb5dfe06e300352be44a321b6fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 21/22] fix: galaxy quantities of a model with a single
 redshift

The mass function and bias were interpolated between redshifts even when there is only one, which gives NaN.
---
 src/onepower/hod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index 3ba7d61..4bb5f80 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -126,6 +126,9 @@ class HaloOccupationDistribution(Component):
         """
         if np.array_equal(self.z, self.z_vec):
             return self.dndlnm
+        if np.size(self.z_vec) == 1:
+            # There is no evolution to interpolate
+            return np.ones_like(self.z)[..., np.newaxis] * self.dndlnm
         dndlnm_fnc = interp1d(
             self.z_vec,
             self.dndlnm,
@@ -148,6 +151,9 @@ class HaloOccupationDistribution(Component):
         """
         if np.array_equal(self.z, self.z_vec):
             return self.halo_bias
+        if np.size(self.z_vec) == 1:
+            # There is no evolution to interpolate
+            return np.ones_like(self.z)[..., np.newaxis] * self.halo_bias
         halo_bias_fnc = interp1d(
             self.z_vec,
             self.halo_bias,
-- 
2.43.0


From a9fe1834dcbd1dd8f9db0f65631179359d4726b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 22/22] fix: no satellites below M0 in the Zheng HOD when alpha
 is zero

The step was raised to the power alpha as well, and 0**0 is one.
---
 src/onepower/hod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index 4bb5f80..e1d6124 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -1431,9 +1431,11 @@ class Zheng(HaloOccupationDistribution):
         """
         Compute the HOD for satellite galaxies.
         """
-        N_sat = (
-            np.heaviside(self.mass - self.M0, 1.0) * (self.mass - self.M0) / self.M1
-        ) ** self.alpha
+        N_sat = np.where(
+            self.mass >= self.M0,
+            (np.fmax(self.mass - self.M0, 0.0) / self.M1) ** self.alpha,
+            0.0,
+        )
         if self.params['A_sat'] is not None:
             delta_pop_s = self.params['A_sat'] * N_sat
             N_sat = N_sat + delta_pop_s
-- 
2.43.0

