From f089d71cfe4aa56d7c1fe744b0abb603c7b6dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 01/24] fix: evaluate the particle distributions without
 altering the caller's array

_correct_array_boundary_values wrote in the array of Lorentz factors it was
given (also through the reshaped views of module-level grids), could not
handle multi-dimensional arrays and did not cover the SSA integrands.
Return a corrected floating point copy instead; this makes also integer
Lorentz factors valid (power laws raised ValueError, interpolated
distributions truncated the density to integers).
---
 agnpy/spectra/spectra.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..37acd6c 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -1,6 +1,5 @@
 # module containing the particle spectra
 from abc import abstractmethod, ABC
-from typing import Iterable
 
 import numpy as np
 import astropy.units as u
@@ -214,15 +213,14 @@ class ParticleDistribution(ABC):
         the first and last gamma values are falling outside the range of the allowed min/max values,
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
+        The input is left untouched, a corrected (floating point) copy is returned.
         """
-        if not isinstance(gamma, Iterable) or len(gamma) == 0:
-            return
-        if gamma_min > gamma[0]:
-            if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
-                gamma[0] = gamma_min
-        if gamma[-1] > gamma_max:
-            if (gamma[-1] - gamma_max) / gamma_max < 1e-10:
-                gamma[-1] = gamma_max
+        # multiplying by 1.0 makes a copy, and avoids integer powers
+        gamma = gamma * 1.0
+        below = (gamma < gamma_min) & (gamma * (1 + 1e-10) > gamma_min)
+        gamma = np.where(below, gamma_min, gamma)
+        above = (gamma > gamma_max) & (gamma < gamma_max * (1 + 1e-10))
+        return np.where(above, gamma_max, gamma)
 
     @abstractmethod
     def __call__(self, gammas):
@@ -271,7 +269,7 @@ class PowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-p), 0
         )
@@ -283,6 +281,7 @@ class PowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return k * np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             -(p + 2) * np.power(gamma, -p - 1),
@@ -365,7 +364,7 @@ class BrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -388,6 +387,7 @@ class BrokenPowerLaw(ParticleDistribution):
     def evaluate_SSA_integrand(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -469,7 +469,7 @@ class LogParabola(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, q, gamma_0, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         gamma_ratio = gamma / gamma_0
         index = -p - q * np.log10(gamma_ratio)
         return np.where(
@@ -568,7 +568,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_c, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             k * gamma ** (-p) * np.exp(-gamma / gamma_c),
@@ -672,7 +672,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_c, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -698,6 +698,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
     ):
         r"""Analytical integrand for the synchrotron self-absorption:
         :math:`\gamma'^2 \frac{d}{d \gamma'} \left(\frac{n_e(\gamma)}{\gamma'^2}\right)`."""
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         prefactor = -(index + 2) / gamma + (-1 / gamma_c)
         return np.where(
@@ -798,7 +799,7 @@ class InterpolatedDistribution(ParticleDistribution):
         ]
 
     def evaluate(self, gamma, norm, gamma_min, gamma_max):
-        self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
         values = np.zeros_like(gamma)
-- 
2.43.0


From dfda2c2b948f1352467cb11371484fa16bf92728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 02/24] fix: log-log trapezoid of integrands that are negative
 or change sign

---
 agnpy/utils/math.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/math.py b/agnpy/utils/math.py
index ec7553b..c78b1e5 100644
--- a/agnpy/utils/math.py
+++ b/agnpy/utils/math.py
@@ -101,7 +101,8 @@ def trapz_loglog(y, x, axis=0):
     y_up = y[tuple(slice_up)]
 
     # slope in the given logarithmic bin
-    m = (log(y_low) - log(y_up)) / (log(x_low) - log(x_up))
+    # (in absolute value, the integrand might be negative, e.g. for SSA)
+    m = (log(np.abs(y_low)) - log(np.abs(y_up))) / (log(x_low) - log(x_up))
 
     vals = np.where(
         np.abs(m + 1) > 1e-10,
@@ -109,6 +110,11 @@ def trapz_loglog(y, x, axis=0):
         x_low * y_low * log(x_up / x_low),
     )
 
+    # no power law can connect values with different signs, use a straight line
+    vals = np.where(
+        np.sign(y_low) == -np.sign(y_up), (y_low + y_up) / 2 * (x_up - x_low), vals
+    )
+
     tozero = (
         (y[tuple(slice_low)] == 0.0)
         + (y[tuple(slice_up)] == 0.0)
-- 
2.43.0


From 81926be1410540b183f2756eb11fd271b295d73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 03/24] fix: pass the injection rates to the time evolution
 callback in the right order

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From bf7dde2b793641e38613fa83378785f246d1ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 04/24] fix: evolve a distribution whose particles have all
 escaped

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From 2b18ccf3a02b36e610f9b41605321e0989917b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 05/24] fix: systematic errors of flux points of instruments
 without an entry

---
 agnpy/fit/data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..9f361da 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -47,13 +47,12 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errp = tab["e2dnde_errp"]
 
         # add systematic errors
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From a6d88434585eb828501d42d30dabd77397fde312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 06/24] fix: accept the EC targets of the sherpa wrapper in any
 order

---
 agnpy/fit/sherpa_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..ec4f268 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,9 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        if set(self.targets) == {"blr"}:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if set(self.targets) == {"dt"}:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
+        if set(self.targets) == {"blr", "dt"}:
             return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
-- 
2.43.0


From 2788657e9775052b3a587d6946b688e622387a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 07/24] fix: homogeneous absorption of a transparent material

---
 agnpy/absorption/targets_absorption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..8783004 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -744,4 +744,5 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # the limit for a transparent material is 1
+        return np.where(t == 0, 1, -np.expm1(-t) / t)
-- 
2.43.0


From c55cab03ab937173d2fda2d661eba10d681f4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 08/24] fix: update the luminosity distance of the blob with
 its redshift

---
 agnpy/emission_regions/blob.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 5e08435..152b6ea 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -76,9 +76,8 @@ class Blob:
             raise ValueError("delta_D must be a positive number")
 
         self.R_b = R_b.to("cm")
+        self._cosmology = cosmology
         self.z = z
-        # if the luminosity distance is not specified, it will be computed from z
-        self.d_L = Distance(z=self.z, cosmology=cosmology).cgs
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
@@ -89,6 +88,17 @@ class Blob:
         self.gamma_e_size = gamma_e_size
         self.gamma_p_size = gamma_p_size
 
+    @property
+    def z(self):
+        """Redshift of the source."""
+        return self._z
+
+    @z.setter
+    def z(self, z):
+        """Setter of the redshift, the luminosity distance is computed from it."""
+        self._z = z
+        self.d_L = Distance(z=z, cosmology=self._cosmology).cgs
+
     @property
     def V_b(self):
         """Volume of the blob."""
-- 
2.43.0


From 809e553b114456b89544e496547170f7e98e7e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 09/24] fix: apply the norm parameter of the gammapy wrappers

---
 agnpy/fit/gammapy_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 105e20d..b94e7f4 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -175,7 +175,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         sed_ssc = SynchrotronSelfCompton.evaluate_sed_flux(
             nu, z, d_L, delta_D, B, R_b, self._n_e, *args, ssa=self.ssa
         )
-        sed = sed_synch + sed_ssc
+        sed = kwargs["norm"] * (sed_synch + sed_ssc)
 
         # gammapy requires a differential flux in input
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
@@ -354,4 +354,5 @@ class ExternalComptonSpectralModel(SpectralModel):
             )
             sed += sed_bb_dt
 
+        sed = kwargs["norm"] * sed
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
-- 
2.43.0


From 3a56858d34ba5314be99508b3f53d65136ef7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 10/24] fix: self-absorbed synchrotron SED at a scalar
 frequency

---
 agnpy/synchrotron/synchrotron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/synchrotron/synchrotron.py b/agnpy/synchrotron/synchrotron.py
index 761da01..e074230 100644
--- a/agnpy/synchrotron/synchrotron.py
+++ b/agnpy/synchrotron/synchrotron.py
@@ -121,7 +121,7 @@ class Synchrotron(RadiativeProcess):
         _gamma, _epsilon = axes_reshaper(gamma, epsilon)
         SSA_integrand = n_e.evaluate_SSA_integrand(_gamma, *args)
         integrand = SSA_integrand * single_particle_synch_power(B_cgs, _epsilon, _gamma)
-        integral = integrator(integrand, gamma, axis=0)
+        integral = integrator(integrand, gamma, axis=0).reshape(epsilon.shape)
         prefactor_k_epsilon = (
             -1 / (8 * np.pi * m_e * np.power(epsilon, 2)) * np.power(lambda_c_e / c, 3)
         )
-- 
2.43.0


From 23948c95ac33a749a01a0cc250bbfdc0e0b3de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:51 +0000
Subject: [PATCH 11/24] fix: synchrotron self-absorption of an empty particle
 distribution

---
 agnpy/spectra/spectra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 37acd6c..73fe3f2 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -868,3 +868,6 @@ class EmptyDistribution(ParticleDistribution):
 
     def evaluate(self, gamma, *args):
         return np.zeros_like(gamma) * u.Unit("cm-3")
+
+    def evaluate_SSA_integrand(self, gamma, *args):
+        return np.zeros_like(gamma) * u.Unit("cm-3")
-- 
2.43.0


From 21b0c6ad9333fa5808368c66008f84e26b412e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:29 +0000
Subject: [PATCH 12/24] fix: viewing angle of a blob moving exactly towards the
 observer

---
 agnpy/emission_regions/blob.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 152b6ea..0e803bb 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -119,7 +119,9 @@ class Blob:
     @property
     def mu_s(self):
         """Cosine of the viewing angle from the jet axis to the observer."""
-        return (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        mu_s = (1 - 1 / (self.Gamma * self.delta_D)) / self.Beta
+        # for an aligned jet, numerical errors might push the cosine above 1
+        return 1.0 if 1 < mu_s < 1 + 1e-10 else mu_s
 
     @property
     def theta_s(self):
-- 
2.43.0


From c70b3b1981ff42cae594223b42253a54eb238888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:26 +0000
Subject: [PATCH 13/24] fix: collision angle of photons moving along the jet
 axis

A cosine that exceeds 1 by rounding made the angle, hence the opacity of
point sources and broad line regions at small viewing angles, NaN.
---
 agnpy/utils/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index fa326e1..9c11b4a 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -7,7 +7,9 @@ def cos_psi(mu_s, mu, phi):
     zenith and azimuth (mu, phi). The system is symmetric in azimuth for the
     electron phi_s = 0, Eq. 8 in [Finke2016]_."""
     term_1 = mu * mu_s
-    term_2 = np.sqrt(1 - np.power(mu, 2)) * np.sqrt(1 - np.power(mu_s, 2))
+    # mu can exceed 1 by rounding for photons moving along the jet axis
+    sin_2 = np.clip(1 - np.power(mu, 2), 0, None)
+    term_2 = np.sqrt(sin_2) * np.sqrt(1 - np.power(mu_s, 2))
     term_3 = np.cos(phi)
     return term_1 + term_2 * term_3
 
-- 
2.43.0


From d7879189ccd297f18a904cc38dc2d015d4f8baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 14/24] fix: zenith of photons crossing the jet axis at right
 angles

A rounding of the argument of the square root made it NaN for heights
equal to the one of a point of the shell.
---
 agnpy/utils/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/utils/geometry.py b/agnpy/utils/geometry.py
index 9c11b4a..62c8adc 100644
--- a/agnpy/utils/geometry.py
+++ b/agnpy/utils/geometry.py
@@ -45,7 +45,8 @@ def mu_star_shell(mu, R_re, r):
         height (in cm) of the emission region in the jet
     """
     addend = np.power(R_re / x_re_shell(mu, R_re, r), 2) * (1 - np.power(mu, 2))
-    mu_star = np.sqrt(1 - addend)
+    # the addend can exceed 1 by rounding for photons moving across the jet axis
+    mu_star = np.sqrt(np.clip(1 - addend, 0, None))
     # if r < mu * R_re you need to multiply by -1 because the blob is before the shell element
     mu_sign = ((r > mu * R_re) - 0.5) * 2
     mu_star *= mu_sign
-- 
2.43.0


From 5007a1b9227ba1fde7a11a34447ceb5f544ee852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:47 +0000
Subject: [PATCH 15/24] fix: Heun steps start from the subgroups at the
 beginning of the step

the second evaluation of the step applied the injection (and the energy
changes) to the split already updated by the first one, so that e.g. the
particles injected in a subgroup were counted twice
---
 agnpy/time_evolution/time_evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..43eb829 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -327,6 +327,7 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
+        initial_subgroups_density = subgroups_density
         new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
@@ -338,7 +339,7 @@ class TimeEvolution:
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
             new_gm_bins, new_dens, subgroups_density = (
-                self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
+                self._apply_time_eval(en_bins, density, initial_subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
             en_changes_grouped = averaged_en_chg_rates_grouped
-- 
2.43.0


From 8740888c0c460dac6a215ff7066b43f780b6441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:47 +0000
Subject: [PATCH 16/24] fix: elapsed time given to the time-evolution callback
 does not change afterwards

the same Quantity was passed at every step and increased in place, so that
the times of the results kept by a callback were all equal to the final one
---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 43eb829..eead1a9 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -267,7 +267,7 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From be1815541cf22e5d0e0f87ec23924558e0755a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:47 +0000
Subject: [PATCH 17/24] fix: time evolution starting from integer Lorentz
 factors

the bins, narrower than one, had no width and the densities were NaN
---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index eead1a9..8177040 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -152,7 +152,7 @@ class TimeEvolution:
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
         if initial_gamma_array is not None:
-           self._initial_gamma_array = initial_gamma_array
+           self._initial_gamma_array = np.asarray(initial_gamma_array, dtype=float)
         else:
             gamma_min = np.max([self._blob.n_e.gamma_min, gamma_bounds[0] if gamma_bounds is not None else 0])
             gamma_max = np.min([self._blob.n_e.gamma_max, gamma_bounds[-1] if gamma_bounds is not None else np.inf])
-- 
2.43.0


From d20c66a3bc5f1982205c56cb241741eb4f549c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 18/24] fix: relative injection and escape respect
 max_density_change_per_interval

the automatic steps were not limited at all by a positive relative injection
and let half of the particles escape at once, whatever the threshold
---
 agnpy/time_evolution/time_evolution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 8177040..481051f 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -308,10 +308,12 @@ class TimeEvolution:
             thr = self._max_density_change_per_interval
             time_2[mask] = np.where(x_f > 0, x_f * thr, -x_f * thr / (1 + thr))
 
-            # 3. particle scaling must stay in a reasonable range, say not more than half can escape
-            # rel_injection_rates * time > -0.5
+            # 3. density change from the relative injection or escape must stay below the same threshold as in 2.,
+            # and in any case not more than half of the particles can escape: rel_injection_rates * time > -0.5
             time_3 = np.repeat(np.inf, len(density)) * u.Unit("s")
-            time_3[rel_injection_rates < 0] = -0.5 / rel_injection_rates[rel_injection_rates < 0]
+            max_escape = min(0.5, thr / (1 + thr))
+            time_3[rel_injection_rates < 0] = -max_escape / rel_injection_rates[rel_injection_rates < 0]
+            time_3[rel_injection_rates > 0] = thr / rel_injection_rates[rel_injection_rates > 0]
 
             # 4. abs particle injection must be below the threshold
             # abs_injection_rates * time < max_abs_injection_per_interval
-- 
2.43.0


From 9255e680a5a12c1b9cc347176d90d59f31cad680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 19/24] fix: trapz_loglog does not overflow on steep integrands

when the integrand rises by more than the largest float between two points
(e.g. the exponential tail of the synchrotron power on a coarse grid) the
integral was inf, or NaN
---
 agnpy/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/utils/math.py b/agnpy/utils/math.py
index c78b1e5..bfefad4 100644
--- a/agnpy/utils/math.py
+++ b/agnpy/utils/math.py
@@ -106,7 +106,7 @@ def trapz_loglog(y, x, axis=0):
 
     vals = np.where(
         np.abs(m + 1) > 1e-10,
-        y_low / (m + 1) * (x_up * np.power(x_up / x_low, m) - x_low),
+        (x_up * y_up - x_low * y_low) / (m + 1),
         x_low * y_low * log(x_up / x_low),
     )
 
-- 
2.43.0


From d207659ccd3dd1f890d72227da315fa3d484628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 20/24] fix: inner edge of the disk does not contribute
 negative emission

the radius is recovered from a cosine close to one: its rounding made the
flux of the inner edge, and the tails of the Compton SED, negative
---
 agnpy/targets/targets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 19bc9a5..d6223d3 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -302,7 +302,8 @@ class SSDisk:
         the disk `r_tilde` (in graviational radius units),
         Eq. 63 [Dermer2009]_"""
         R_tilde = r_tilde * np.sqrt(np.power(mu, -2) - 1)
-        return 1 - np.sqrt(R_in_tilde / R_tilde)
+        # rounding can bring the inner radius slightly below R_in
+        return np.maximum(1 - np.sqrt(R_in_tilde / R_tilde), 0)
 
     @staticmethod
     def evaluate_epsilon(L_disk, M_BH, eta, R_tilde):
-- 
2.43.0


From 76e8bfba69d5ab89ea466bab28555fb988b14ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 21/24] fix: opacity of the BLR just inside of the shell

points closer than min_rel_distance to the shell were moved outwards by this
distance: those at R_line (1 - min_rel_distance) onto the shell, where the
integrand is NaN
---
 agnpy/absorption/targets_absorption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 8783004..8737f95 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -335,7 +335,7 @@ class Absorption:
         # check if any point is too close to R_line, the function works only for mu=1, so
         # we can check directly if R_line is within 'l' array
         idx = np.isclose(l, R_line, rtol=min_rel_distance)
-        l[idx] += min_rel_distance * R_line
+        l[idx] = (1 + min_rel_distance) * R_line
 
         _mu, _phi, _l, _epsilon_1 = axes_reshaper(mu, phi, l, epsilon_1)
         x = x_re_shell(_mu, R_line, _l)
@@ -408,7 +408,7 @@ class Absorption:
         x_cross = np.sqrt(r**2 + uu**2 + 2 * uu * r * mu_s)
         idx = np.isclose(x_cross, R_line, rtol=min_rel_distance)
         if idx.any():
-            uu[idx] += min_rel_distance * R_line
+            uu[idx] += 2 * min_rel_distance * R_line
             # it might happen that some of the points get more shifted then the next one,
             # possibly making integration messy, so we sort the points
             uu = np.sort(uu)
-- 
2.43.0


From f26b4779ee3c3cf687c41c6b5b3081441d485b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 22/24] fix: refuse initial densities whose number of subgroups
 does not match

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 481051f..76fdacb 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -186,7 +186,7 @@ class TimeEvolution:
             raise ValueError("subgroups_initial_density provided without subgroups")
         if subgroups_initial_density is not None and initial_gamma_array is None:
             raise ValueError("subgroups_initial_density provided without initial_gamma_array")
-        if subgroups_initial_density is not None and initial_gamma_array is not None and subgroups_initial_density.shape[1] != len(initial_gamma_array):
+        if subgroups_initial_density is not None and initial_gamma_array is not None and subgroups_initial_density.shape != (len(subgroups), len(initial_gamma_array)):
             raise ValueError("Incorrect shape for subgroups_initial_density")
         self._distribution_change_callback = distribution_change_callback
 
-- 
2.43.0


From 0abc9fe16d6ef78b2a10170a2bf603c628ddd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 23/24] fix: time evolution keeps the bins that lie on the
 gamma bounds

The bounds were compared with bins converted to energies and back, so that bins
lying exactly on a bound were removed because of rounding.
---
 agnpy/time_evolution/time_evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 76fdacb..59c02db 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -434,7 +434,10 @@ class TimeEvolution:
     def _remove_gamma_beyond_bounds(self, gm_bins):
         gm_bins_lb = gm_bins[0]
         initial = np.arange(len(gm_bins_lb))
-        mapping = np.where((self._gamma_bounds[0] <= gm_bins_lb) & (gm_bins_lb <= self._gamma_bounds[1] / (1 + bin_size_factor)))[0]
+        # bins lying on the bounds shall not be lost because of the rounding in the conversions to energy and back
+        lower_bound = self._gamma_bounds[0] * (1 - 1e-12)
+        upper_bound = self._gamma_bounds[1] / (1 + bin_size_factor) * (1 + 1e-12)
+        mapping = np.where((lower_bound <= gm_bins_lb) & (gm_bins_lb <= upper_bound))[0]
         removed = np.setdiff1d(initial, mapping)
         if len(removed) > 0:
             log.info("Removed bins %s with gamma values %s", removed, gm_bins_lb[removed])
-- 
2.43.0


From 203dc6206b607551ce35db85a0f69d18ddd70db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 24/24] fix: flux points for sherpa are converted from the
 units of the table

The values of the columns were read as if in eV and erg cm-2 s-1 whatever
the units written in the table.
---
 agnpy/fit/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 9f361da..46e784b 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -41,10 +41,11 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
     for tab in table.groups:
         name = tab["instrument"][0]
 
-        energy = tab["e_ref"]
-        e2dnde = tab["e2dnde"]
-        e2dnde_errn = tab["e2dnde_errn"]
-        e2dnde_errp = tab["e2dnde_errp"]
+        # units in which the models are evaluated
+        energy = u.Quantity(tab["e_ref"], "eV").value
+        e2dnde = u.Quantity(tab["e2dnde"], "erg cm-2 s-1").value
+        e2dnde_errn = u.Quantity(tab["e2dnde_errn"], "erg cm-2 s-1").value
+        e2dnde_errp = u.Quantity(tab["e2dnde_errp"], "erg cm-2 s-1").value
 
         # add systematic errors
         e2dnde_err_syst = np.zeros_like(e2dnde)
-- 
2.43.0

