From 59e68a8cef839ee2ce77240852273cc94de1c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 01/32] fix: Stafford (2017) correlations match the published
 functional form

The between-event term normalized the frequency twice and scaled the exponent
by it, gamma_A was applied with the wrong sign, and the nugget effect multiplied
the correlation instead of carrying it to one. Correlations exceeded one and
disagreed with tests/data/PJS2017_cor_M4pt5_fmin0pt06.csv.
---
 src/pygmm/stafford_2017.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 4768df4..94ea2e3 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -150,18 +150,11 @@ class Stafford2017:
         f_min = np.minimum(f_i, f_j)
         f_max = np.maximum(f_i, f_j)
 
-        # Corner frequency for given magnitude
-        fc = cls.compute_corner_frequency(mag)
-
-        # Normalized frequencies
-        f_min_norm = f_min / fc
-        f_max_norm = f_max / fc
-
-        # Compute gamma_E
-        gamma_E = cls.compute_gamma_E(f_min_norm, mag)
+        # Compute gamma_E, which normalizes the frequency by the corner frequency
+        gamma_E = cls.compute_gamma_E(f_min, mag)
 
         # Apply equation 11
-        correlation = np.exp(gamma_E * f_min_norm * np.log(f_max_norm / f_min_norm))
+        correlation = np.exp(gamma_E * np.log(f_max / f_min))
 
         return correlation
 
@@ -179,14 +172,11 @@ class Stafford2017:
         gamma_A = cls.compute_gamma_A(f_min)
 
         # Base correlation (equation 14)
-        rho_A0 = (1 - eta_A) * np.exp(gamma_A * np.log(f_max / f_min))
+        rho_A0 = (1 - eta_A) * np.exp(-gamma_A * np.log(f_max / f_min))
 
         # Full correlation including nugget effect (equation 15)
-        if np.isclose(f_i, f_j):
-            return 1.0
-        else:
-            rho_A = rho_A0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
-            return rho_A
+        nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+        return rho_A0 * (1 - nugget) + nugget
 
     @classmethod
     def between_site_correlation(cls, f_i, f_j):
@@ -205,11 +195,8 @@ class Stafford2017:
         rho_S0 = (1 - eta_S) * np.exp(gamma_S * np.log(f_max / f_min))
 
         # Full correlation including nugget effect (equation 15)
-        if np.isclose(f_i, f_j):
-            return 1.0
-        else:
-            rho_S = rho_S0 * (1 - np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min)))
-            return rho_S
+        nugget = np.exp(-cls.COEFF.nugget_exp * np.log(f_max / f_min))
+        return rho_S0 * (1 - nugget) + nugget
 
     @classmethod
     def compute_variances(cls, freqs):
-- 
2.43.0


From cdcef3ce96d790546ec9386fca11b47d25dbbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 02/32] fix: Scenario attributes and items always agree

Setting an attribute created a shadowing instance attribute that the item view
(and thus copies and models) did not see. Missing attributes raised KeyError,
which broke hasattr, deepcopy and pickle. repr() failed without mag or dist_jb.
---
 src/pygmm/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..a04139a 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,11 +126,23 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        try:
+            return self.__dict__["data"][item]
+        except KeyError:
+            raise AttributeError(
+                f"{type(self).__name__!r} object has no attribute {item!r}"
+            ) from None
+
+    def __setattr__(self, item, value):
+        """Set the data with attributes."""
+        if item in self.KNOWN_KEYS:
+            self.data[item] = value
+        else:
+            super().__setattr__(item, value)
 
     def __repr__(self):
         """Representation."""
-        return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
+        return f"<Scenario(mag={self.get('mag')}, dist_jb={self.get('dist_jb')})>"
 
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
-- 
2.43.0


From 8450cf9e83849709f06054142cb76b1448a6c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 03/32] fix: report the limit in NumericParameter warnings

---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index a04139a..8a2cc9d 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -469,14 +469,14 @@ class NumericParameter(Parameter):
             if self.min is not None and value < self.min:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is less than the recommended limit ({self.min}).",
+                    f"is less than the recommended limit ({self.min}).",
                     UserWarning,
                     stacklevel=2,
                 )
             elif self.max is not None and self.max < value:
                 warnings.warn(
                     f"{self.name} ({value}) "
-                    "is greater than the recommended limit ({self.max}).",
+                    f"is greater than the recommended limit ({self.max}).",
                     UserWarning,
                     stacklevel=2,
                 )
-- 
2.43.0


From c0c150ff6851b2d5e43d0c24793ce4a6fc359524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 04/32] fix: apply the China anelastic attenuation in CB14

---
 src/pygmm/campbell_bozorgnia_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..cae82c7 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -188,7 +188,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
         # Anaelastic attenuation term
         if s.region in ["japan", "italy"]:
             dc_20 = c.dc_20jp
-        elif s.region == ["china"]:
+        elif s.region in ["china"]:
             dc_20 = c.dc_20ch
         else:
             dc_20 = c.dc_20ca
-- 
2.43.0


From 461f8848539484bbce860fe189ab436da3c1b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 05/32] fix: use the regional basin depth model in BSSA14

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..e9a0f04 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -205,7 +205,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         else:
             # Compute the site term
             site = self.calc_site_term(
-                pga_ref, s.v_s30, s.depth_1_0, s.get("depth_1_0", None)
+                pga_ref, s.v_s30, s.depth_1_0, s.region
             )
 
         ln_resp = event + path + site
-- 
2.43.0


From d03a36748cb9e16df834d64a28523d7215a62a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 06/32] fix: AB06 nonlinear site coefficient is continuous at
 the 300 m/s limit

The interpolation between 180 and 300 m/s omitted the b_2 offset, so it was
continuous at neither limit.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index d17e5ee..28e2786 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -153,7 +153,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         if s.v_s30 <= VS_1:
             b_nl = c.b_1
         elif VS_1 < s.v_s30 <= VS_2:
-            b_nl = (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(VS_1 / VS_2)
+            b_nl = c.b_2 + (c.b_1 - c.b_2) * np.log(s.v_s30 / VS_2) / np.log(
+                VS_1 / VS_2
+            )
         elif VS_2 < s.v_s30 <= VS_REF:
             b_nl = c.b_2 * np.log(s.v_s30 / VS_REF) / np.log(VS_2 / VS_REF)
         else:
-- 
2.43.0


From fcbade531a34ce9b8f93bf984cdd70cca98fbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 07/32] fix: AB06 standard deviation is in natural log units

The published value of 0.30 is for log base 10.
---
 src/pygmm/atkinson_boore_2006.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 28e2786..8810172 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -108,7 +108,7 @@ class AtkinsonBoore2006(model.GroundMotionModel):
             natural log standard deviation
 
         """
-        ln_std = np.ones_like(self.PERIODS) * 0.30
+        ln_std = np.ones_like(self.PERIODS) * 0.30 * np.log(10)
         return ln_std
 
     def _calc_stress_factor(self) -> float:
-- 
2.43.0


From 8d66ad6b4957f652d627abac75ce97505474f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 08/32] fix: AB06 PGV and PGD are in cm/sec and cm

They were divided by the acceleration of gravity.
---
 src/pygmm/atkinson_boore_2006.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index 8810172..b1c3431 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -93,8 +93,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
 
             log10_resp += log10_site
 
-        # Convert from cm/sec/sec to gravity
-        log10_resp -= np.log10(980.665)
+        # Convert accelerations from cm/sec/sec to gravity
+        log10_resp[self.INDEX_PGA] -= np.log10(980.665)
+        log10_resp[self.INDICES_PSA] -= np.log10(980.665)
 
         ln_resp = np.log(10**log10_resp)
         return ln_resp
-- 
2.43.0


From 92f330dd4d07cd2f15fb1fb0b676ddcdb9e9083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 09/32] fix: AB06 stress adjustment is zero at the reference
 stress drop

The factor scales with the number of doublings of the 140 bar stress drop, but
the stress ratio itself was used.
---
 src/pygmm/atkinson_boore_2006.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/atkinson_boore_2006.py b/src/pygmm/atkinson_boore_2006.py
index b1c3431..4967b20 100644
--- a/src/pygmm/atkinson_boore_2006.py
+++ b/src/pygmm/atkinson_boore_2006.py
@@ -128,7 +128,9 @@ class AtkinsonBoore2006(model.GroundMotionModel):
         v1 = c.delta + 0.05
         v2 = 0.05 + c.delta * np.maximum(s.mag - c.m_1, 0) / (c.m_h - c.m_1)
 
-        log10_stress_factor = np.minimum(2.0, stress_drop / 140.0) * np.minimum(v1, v2)
+        log10_stress_factor = (
+            np.log2(np.minimum(2.0, stress_drop / 140.0)) * np.minimum(v1, v2)
+        )
 
         return np.interp(self.PERIODS, c.period, log10_stress_factor)
 
-- 
2.43.0


From 84cfb0c4a376aca09ffe162cf83c8e2b2960156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 10/32] fix: Pea11 standard deviation is in natural log units

---
 src/pygmm/pezeshk_zandieh_tavakoli_2011.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
index cd0be56..30ade11 100644
--- a/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
+++ b/src/pygmm/pezeshk_zandieh_tavakoli_2011.py
@@ -85,10 +85,10 @@ class PezeshkZandiehTavakoli2011(model.GroundMotionModel):
         c = self.COEFF
 
         if s.mag <= 7.0:
-            ln_std_mean = c.c_12 * s.mag + c.c_13
+            log10_std_mean = c.c_12 * s.mag + c.c_13
         else:
-            ln_std_mean = -6.95e-3 * s.mag + c.c_14
+            log10_std_mean = -6.95e-3 * s.mag + c.c_14
 
-        ln_std = np.sqrt(ln_std_mean**2 + c["sigma_reg"] ** 2)
+        log10_std = np.sqrt(log10_std_mean**2 + c["sigma_reg"] ** 2)
 
-        return ln_std
+        return np.log(10) * log10_std
-- 
2.43.0


From 0f740fa46464e4865222f805d510b033e3db2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 11/32] fix: AS16 basin depth difference is in meters

The coefficients and the limit of 200 are specified for meters, while depths are
in kilometers.
---
 src/pygmm/afshari_stewart_2016.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 6ba6720..55c330e 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -86,7 +86,8 @@ class AfshariStewart2016(model.Model):
         dz_1ref = 200
         # depth to bedrock duration
         if s.depth_1_0 is not None:
-            dz_1 = s.depth_1_0 - self.calc_depth_1_0(s.v_s30, s.mechanism)
+            # Convert from km to m
+            dz_1 = 1000 * (s.depth_1_0 - self.calc_depth_1_0(s.v_s30))
             F_dz1 = c_5 * (dz_1 if dz_1 <= dz_1ref else dz_1ref)
         else:
             F_dz1 = 0
-- 
2.43.0


From 15bbc1c68e2a65ed0f9e63d063b1d44047f92f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 12/32] fix: AS96 does not modify the provided Arias
 intensities

---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..0d4f2a0 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias, dtype=float)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From fdd1a0e020e59aae2c0981f87583b1f27717279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 13/32] fix: BA19 standard deviation varies with magnitude

The between magnitude 4 and 6 coefficients decrease, so that clipping to (left,
right) always returned the large magnitude coefficient.
---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..c9bbc6d 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -171,7 +171,7 @@ class BaylessAbrahamson2019(model.Model):
         c = self.COEFF
 
         def interp(left, right):
-            return np.clip(left + (right - left) / 2 * (s.mag - 4), left, right)
+            return left + (right - left) * np.clip((s.mag - 4) / 2, 0, 1)
 
         tau = interp(c.s1, c.s2)
         phi_s2s = interp(c.s3, c.s4)
-- 
2.43.0


From 8492d911740fdef168498f7e2b42839f9a4971c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 14/32] fix: BA19 freqs can be modified without changing the
 model

---
 src/pygmm/bayless_abrahamson_2019.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index c9bbc6d..422d98f 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,7 +56,7 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        return self.FREQS.copy()
 
     @property
     def ln_eas(self):
-- 
2.43.0


From b121624ee300b95345f4fe1d84d06ea1845ccd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 15/32] fix: BA18 accepts any array_like of frequencies

---
 src/pygmm/bayless_abrahamson_2018.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygmm/bayless_abrahamson_2018.py b/src/pygmm/bayless_abrahamson_2018.py
index f3db13f..ac05efd 100644
--- a/src/pygmm/bayless_abrahamson_2018.py
+++ b/src/pygmm/bayless_abrahamson_2018.py
@@ -39,6 +39,7 @@ class BaylessAbrahamson2018:
             Correlation coefficient matrix
         """
 
+        freqs = np.asarray(freqs)
         # Create two matrices of frequencies
         n = freqs.shape[0]
         freqs_row = np.full((n, n), freqs)
-- 
2.43.0


From 4bfd62f737fe54d314ae6a2b5d1584dcbf1db69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 16/32] fix: GA11 interpolated standard deviation is in natural
 log units

---
 src/pygmm/gulerce_abrahamson_2011.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..d07eb97 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -90,9 +90,9 @@ class GulerceAbrahamson2011(model.Model):
         )
 
     def interp_ln_std(self, periods: ArrayLike) -> np.ndarray:
-        """Interpolate the spectral ratio.
+        """Interpolate the logarithmic standard deviation.
 
-        Interpolation of the spectral ratio done in log-period space.
+        Interpolation of the standard deviation done in log-period space.
 
         Parameters
         ----------
@@ -101,17 +101,15 @@ class GulerceAbrahamson2011(model.Model):
 
         Returns
         -------
-        ratio : np.ndarray
-            interpolated ratio
+        ln_std : np.ndarray
+            interpolated logarithmic standard deviation
 
         """
 
-        return np.exp(
-            np.interp(
-                np.log(periods),
-                np.log(self.PERIODS[self.INDICES_PSA]),
-                self._ln_std[self.INDICES_PSA],
-            )
+        return np.interp(
+            np.log(periods),
+            np.log(self.PERIODS[self.INDICES_PSA]),
+            self._ln_std[self.INDICES_PSA],
         )
 
     def _calc_ln_ratio(self):
-- 
2.43.0


From bdd80f0de63325135bad2f734c5a4230ae983d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 17/32] fix: CMSV can be conditioned on every period

---
 src/pygmm/kishida_2017.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/kishida_2017.py b/src/pygmm/kishida_2017.py
index 7244613..2cf4971 100644
--- a/src/pygmm/kishida_2017.py
+++ b/src/pygmm/kishida_2017.py
@@ -55,7 +55,7 @@ def calc_cond_mean_spectrum_vector(
     if not np.all(np.diff(periods) > 0):
         raise ValueError("`periods` must be increasing")
 
-    mask = ln_psas_cond.mask
+    mask = np.ma.getmaskarray(ln_psas_cond)
 
     # Group the periods into those not being conditioned upon, and those used
     # for the conditioning. See Equations (14), (15), and (16)
-- 
2.43.0


From 8bbee2e6105fee0c4070fe01eab4cbee25d00408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 18/32] fix: PR24 duration_model evaluates every element of
 array inputs

Only the first element was used, and the others silently ignored.
---
 src/pygmm/pinilla_ramos_et_al_2024.py | 43 ++++++++++++++-------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2024.py b/src/pygmm/pinilla_ramos_et_al_2024.py
index 63f727b..c7ca97a 100644
--- a/src/pygmm/pinilla_ramos_et_al_2024.py
+++ b/src/pygmm/pinilla_ramos_et_al_2024.py
@@ -789,31 +789,34 @@ def duration_model(
     from .model import Scenario
 
     # Convert inputs to arrays
-    mag_arr = np.atleast_1d(mag)
-    rrup_arr = np.atleast_1d(rrup)
-    vs30_arr = np.atleast_1d(vs30)
-
-    # Create scenario and model
-    scenario = Scenario(
-        mag=mag_arr[0],
-        dist_rup=rrup_arr[0],
-        v_s30=vs30_arr[0],
-        event_type=eq_type,
-        region=region,
+    mag_arr, rrup_arr, vs30_arr = np.broadcast_arrays(
+        *(np.atleast_1d(v) for v in (mag, rrup, vs30))
     )
-    model_inst = PinillaRamosEtAl2024(scenario)
 
-    if np.isclose(energy, 0.75):
-        duration, plus_sigma, minus_sigma = (
-            model_inst.duration,
-            model_inst.duration_plus_sigma,
-            model_inst.duration_minus_sigma,
+    durations = np.empty((3,) + mag_arr.shape)
+    for idx in np.ndindex(mag_arr.shape):
+        # Create scenario and model
+        scenario = Scenario(
+            mag=mag_arr[idx],
+            dist_rup=rrup_arr[idx],
+            v_s30=vs30_arr[idx],
+            event_type=eq_type,
+            region=region,
         )
-    else:
-        duration, plus_sigma, minus_sigma = model_inst.duration_for_energy(energy)
+        model_inst = PinillaRamosEtAl2024(scenario)
+
+        if np.isclose(energy, 0.75):
+            durations[(slice(None),) + idx] = (
+                model_inst.duration,
+                model_inst.duration_plus_sigma,
+                model_inst.duration_minus_sigma,
+            )
+        else:
+            durations[(slice(None),) + idx] = model_inst.duration_for_energy(energy)
 
     # Return as arrays to match expected return type
-    return np.array([duration]), np.array([plus_sigma]), np.array([minus_sigma])
+    duration, plus_sigma, minus_sigma = durations
+    return duration, plus_sigma, minus_sigma
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3bd4589863e6880dccfd6c93bc3e9b86b4ed7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 19/32] fix: AB20 can be evaluated

The optional intensities defaulted to typing objects, coefficients were looked up
with names that do not exist, and __init__ returned the result. The conditional
PGV is now provided through pgv and ln_std_pgv, as for the other models.
---
 src/pygmm/abrahamson_bhasin_2020.py | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pygmm/abrahamson_bhasin_2020.py b/src/pygmm/abrahamson_bhasin_2020.py
index 1b56c98..e173bd4 100644
--- a/src/pygmm/abrahamson_bhasin_2020.py
+++ b/src/pygmm/abrahamson_bhasin_2020.py
@@ -85,9 +85,9 @@ class AbrahamsonBhasin2020(model.Model):
     def __init__(
         self,
         scenario: model.Scenario,
-        psa=Optional[float],
-        pga=Optional[float],
-        psa_1s=Optional[float],
+        psa: Optional[float] = None,
+        pga: Optional[float] = None,
+        psa_1s: Optional[float] = None,
     ):
         super().__init__(scenario)
 
@@ -103,7 +103,7 @@ class AbrahamsonBhasin2020(model.Model):
             ln_gm = np.log(psa_1s)
 
         C = self.COEFFS[method]
-        s = scenario
+        s = self._scenario
 
         # Mean
         if s.mag < 5:
@@ -119,7 +119,7 @@ class AbrahamsonBhasin2020(model.Model):
             + C.a_4 * (s.mag - 6)
             + C.a_5 * (8.5 - s.mag) ** 2
             + C.a_6 * np.log(s.dist_rup + 5 * np.exp(0.4 * (s.mag - 6)))
-            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(C.v_s30 / self.V_REF)
+            + (C.a_7 + C.a_8 * (s.mag - 5)) * np.log(s.v_s30 / self.V_REF)
         )
 
         if method == "psa(T=Tpgv)":
@@ -127,21 +127,29 @@ class AbrahamsonBhasin2020(model.Model):
         else:
 
             def interp(var_1, var_2):
-                if s.mag < C.mag_1:
+                if s.mag < C.M_1:
                     val = var_1
-                elif s.mag > C.mag_2:
+                elif s.mag > C.M_2:
                     val = var_2
                 else:
-                    val = var_1 + (var_2 - var_1) * (s.mag - C.mag_1) / (
-                        C.mag_2 - C.mag_1
-                    )
+                    val = var_1 + (var_2 - var_1) * (s.mag - C.M_1) / (C.M_2 - C.M_1)
                 return val
 
             phi = interp(C.phi_1, C.phi_2)
             tau = interp(C.tau_1, C.tau_2)
 
-        ln_std = np.sqrt(phi**2 + tau**2)
-        return ln_mean, ln_std
+        self._ln_pgv = ln_mean
+        self._ln_std = np.sqrt(phi**2 + tau**2)
+
+    @property
+    def pgv(self) -> float:
+        """Peak ground velocity (PGV) computed by the model (cm/sec)."""
+        return np.exp(self._ln_pgv)
+
+    @property
+    def ln_std_pgv(self) -> float:
+        """Peak ground velocity log-standard deviation."""
+        return self._ln_std
 
     @classmethod
     def ln_period_pgv(cls, mag: float) -> float:
-- 
2.43.0


From c9559869c530f1c31be59d8765dcc0bd641ad632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 20/32] fix: document the global attenuation used by BSSA14 for
 New Zealand

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index e9a0f04..d6db12d 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -56,7 +56,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         +-------------+--------------+------------+
         | japan       | italy_japan  | japan      |
         +-------------+--------------+------------+
-        | new zealand | italy_japan  | global     |
+        | new_zealand | global       | global     |
         +-------------+--------------+------------+
         | taiwan      | global       | global     |
         +-------------+--------------+------------+
-- 
2.43.0


From c5ff3f7e0a750feeb6a78b177ba41782ede17d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 21/32] fix: BA19 nonlinear site term remains at its minimum at
 high frequencies

---
 src/pygmm/bayless_abrahamson_2019.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 422d98f..6f9d7cb 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -154,12 +154,13 @@ class BaylessAbrahamson2019(model.Model):
         # Use the minimum value at higher frequencies as described in the text and
         # referenced to Bayless and Abrahamson (2018b)
         i = np.argmin(f_nl)
-        f_nl[(i + 1) :] = f_nl[i]
+        f_nl_min = f_nl[i]
+        f_nl[(i + 1) :] = f_nl_min
         width = 7
         kernel = np.ones(width) / width
         f_nl = np.convolve(f_nl, kernel, mode="same")
         # End needs to be forced down
-        f_nl[-width:] = f_nl[i]
+        f_nl[-width:] = f_nl_min
 
         f_s = f_sl + f_nl
 
-- 
2.43.0


From e0e6012070d1aa907cac95dfd08e85190afe6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 22/32] fix: BA19 standard deviation is defined up to 100 Hz

---
 src/pygmm/bayless_abrahamson_2019.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 6f9d7cb..733eb8f 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -178,7 +178,11 @@ class BaylessAbrahamson2019(model.Model):
         phi_s2s = interp(c.s3, c.s4)
         phi_ss = interp(c.s5, c.s6)
 
-        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c.c1a**2)
+        # The variability of c1 is zero at high frequencies, and not tabulated for
+        # the frequencies of the extrapolation
+        c1a = np.nan_to_num(c.c1a)
+
+        ln_std = np.sqrt(tau**2 + phi_s2s**2 + phi_ss**2 + c1a**2)
         return ln_std
 
     @staticmethod
-- 
2.43.0


From c4d55193b66cd6912c100872e05d641e104fe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 23/32] fix: document the reference response of the CY14 site
 term

---
 src/pygmm/chiou_youngs_2014.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..dedbacb 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -169,7 +169,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
         Parameters
         ----------
         resp_ref : :class:`np.array`
-            natural logarithm of the response at the reference site condition
+            response at the reference site condition
             at each of the periods specified by the model coefficients.
         v_s30 : float
             site condition. Set `v_s30` to the reference
-- 
2.43.0


From a620c468fa89f487cb351845d0e91fd309287a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 24/32] fix: CB14 short-period PSA is at least PGA

---
 src/pygmm/campbell_bozorgnia_2014.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index cae82c7..6dc8d6e 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -105,6 +105,11 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         pga_ref = np.exp(self._calc_ln_resp(np.nan, self.V_REF)[self.INDEX_PGA])
         self._ln_resp = self._calc_ln_resp(pga_ref, self._scenario.v_s30)
+        # PSA at short periods cannot be less than PGA, Equation (1)
+        short = (self.PERIODS > 0) & (self.PERIODS < 0.25)
+        self._ln_resp[short] = np.maximum(
+            self._ln_resp[short], self._ln_resp[self.INDEX_PGA]
+        )
         self._ln_std, self._tau, self._phi = self._calc_ln_std(pga_ref)
 
     def _calc_ln_resp(self, pga_ref: float, v_s30: float) -> np.ndarray:
-- 
2.43.0


From 39d7f4bc36ded575cdd2e65f0a0c3ae50fd69d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 25/32] fix: PR23 durations of energy fractions next to 0.75

The fraction without its own coefficients uses the closest row. The row of
0.75 had an offset of one, which doubled the duration from 0.725 to 0.775.
---
 src/pygmm/pinilla_ramos_et_al_2023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/pinilla_ramos_et_al_2023.py b/src/pygmm/pinilla_ramos_et_al_2023.py
index 2c223d6..b42ff42 100644
--- a/src/pygmm/pinilla_ramos_et_al_2023.py
+++ b/src/pygmm/pinilla_ramos_et_al_2023.py
@@ -105,7 +105,7 @@ class PinillaRamosEtAl2023(model.Model):
             0.092914,
             0.067803,
             0.034992,
-            1,
+            0,
             -0.044725,
             -0.112447,
             -0.209689,
-- 
2.43.0


From 47d0c6e2a738fa1c04654d7317d5459f91b2f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 26/32] fix: AS16 stress index of D20-80 for reverse faulting

The value of strike-slip faulting was used. The source duration of the
published index agrees with the published constant of small events (0.7729 s)
at magnitude 5.2, as it does for all other mechanisms and durations.
---
 src/pygmm/afshari_stewart_2016.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/afshari_stewart_2016.py b/src/pygmm/afshari_stewart_2016.py
index 55c330e..4523875 100644
--- a/src/pygmm/afshari_stewart_2016.py
+++ b/src/pygmm/afshari_stewart_2016.py
@@ -46,7 +46,7 @@ class AfshariStewart2016(model.Model):
             b_1 = np.array([4.992, 3.170, 4.778])
         elif s.mechanism == "RS":
             b_0 = np.array([0.7806, 1.612, 0.7729])
-            b_1 = np.array([7.061, 4.536, 6.188])
+            b_1 = np.array([7.061, 4.536, 6.579])
         elif s.mechanism == "SS":
             b_0 = np.array([1.279, 2.302, 0.8804])
             b_1 = np.array([5.578, 3.467, 6.188])
-- 
2.43.0


From 8c930b186937b6529662bc8f37519f923a4cc382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 27/32] fix: TP05 standard deviation at 0.5 s

The slope of the deviation with magnitude was -0.173, which led to a deviation
of 0.04 for magnitude 7.19 compared to 0.505 above magnitude 7.2. With -0.107
both agree, as they do at all other periods.
---
 src/pygmm/data/tavakoli_pezeshk_2005.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygmm/data/tavakoli_pezeshk_2005.csv b/src/pygmm/data/tavakoli_pezeshk_2005.csv
index 241e7cb..cf4affb 100644
--- a/src/pygmm/data/tavakoli_pezeshk_2005.csv
+++ b/src/pygmm/data/tavakoli_pezeshk_2005.csv
@@ -7,7 +7,7 @@
 0.15,2.38E+00,5.01E-01,-6.42E-02,-1.73E+00,-9.76E-01,4.14E-01,6.60E-03,-4.80E-03,3.93E-03,1.51E+00,-8.65E-01,3.64E-04,6.84E-04,1.24E+00,-1.08E-01,0.464
 0.2,-5.48E-01,8.57E-01,-2.62E-02,-1.68E+00,-8.61E-01,4.33E-01,2.79E-03,-3.65E-03,-2.02E-03,1.64E+00,-9.25E-01,1.61E-04,6.43E-04,1.24E+00,-1.08E-01,0.469
 0.3,-5.13E-01,6.67E-01,-4.43E-02,-1.42E+00,-4.70E-01,4.68E-01,1.08E-02,-5.41E-03,6.44E-03,1.52E+00,-9.15E-01,4.32E-04,2.87E-04,1.26E+00,-1.09E-01,0.479
-0.5,2.40E-01,6.11E-01,-7.89E-02,-1.55E+00,-8.44E-01,4.14E-01,7.89E-03,-3.65E-03,-2.65E-04,1.59E+00,-8.59E-01,2.77E-04,1.46E-04,1.28E+00,-1.73E-01,0.505
+0.5,2.40E-01,6.11E-01,-7.89E-02,-1.55E+00,-8.44E-01,4.14E-01,7.89E-03,-3.65E-03,-2.65E-04,1.59E+00,-8.59E-01,2.77E-04,1.46E-04,1.28E+00,-1.07E-01,0.505
 0.75,-6.79E-01,6.66E-01,-8.30E-02,-1.48E+00,-7.34E-01,4.35E-01,9.53E-03,-3.37E-03,-1.19E-03,1.55E+00,-7.84E-01,2.45E-04,5.47E-04,1.28E+00,-1.05E-01,0.522
 1,-1.55E+00,7.64E-01,-8.59E-02,-1.49E+00,-9.41E-01,4.24E-01,-5.84E-03,-2.09E-03,3.30E-03,1.52E+00,-7.57E-01,1.17E-04,7.59E-04,1.28E+00,-1.03E-01,0.537
 1.5,-2.30E+00,7.94E-01,-8.84E-02,-1.45E+00,-8.86E-01,4.12E-01,8.30E-03,-3.27E-03,2.51E-03,1.71E+00,-7.69E-01,2.33E-04,1.66E-04,1.27E+00,-9.99E-02,0.551
-- 
2.43.0


From 55e3ed8b84eec15fb9cbfb0ecab7878419c42c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:01 +0000
Subject: [PATCH 28/32] fix: coefficients can be copied and pickled, and lack
 unknown attributes

Reading an unknown attribute of Coefficients raised KeyError instead of
AttributeError, so that hasattr failed, and copies recursed without end.
---
 src/pygmm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 8a2cc9d..41ed6a3 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -560,7 +560,12 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        try:
+            return self.__dict__["_data"][key]
+        except KeyError:
+            raise AttributeError(
+                f"{type(self).__name__!r} object has no attribute {key!r}"
+            ) from None
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From b6e642fb0a894030b00209763e1db901553220b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 29/32] fix: S17 uses the standard deviations that are given

---
 src/pygmm/stafford_2017.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/stafford_2017.py b/src/pygmm/stafford_2017.py
index 94ea2e3..3d70cf5 100644
--- a/src/pygmm/stafford_2017.py
+++ b/src/pygmm/stafford_2017.py
@@ -279,7 +279,11 @@ class Stafford2017:
         """
         if sigma_E is None or sigma_S is None or sigma_A is None:
             # Compute standard deviations if not provided
-            sigma_E, sigma_S, sigma_A = cls.compute_variances(freqs)
+            computed = cls.compute_variances(freqs)
+            sigma_E, sigma_S, sigma_A = (
+                c if given is None else given
+                for given, c in zip((sigma_E, sigma_S, sigma_A), computed)
+            )
 
         # Check input dimensions
         n = len(freqs)
-- 
2.43.0


From 95fd108e36b05da87df8969b4756b2694b185550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:05 +0000
Subject: [PATCH 30/32] fix: read data files as UTF-8 regardless of the locale

---
 src/pygmm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 41ed6a3..146f433 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -546,7 +546,12 @@ def load_data_file(name, skip_header: int = 0) -> np.recarray:
     """
     fname = os.path.join(os.path.dirname(__file__), "data", name)
     return np.genfromtxt(
-        fname, skip_header=skip_header, delimiter=",", names=True, case_sensitive=True
+        fname,
+        skip_header=skip_header,
+        delimiter=",",
+        names=True,
+        case_sensitive=True,
+        encoding="utf-8",
     ).view(np.recarray)
 
 
-- 
2.43.0


From 76af72415661892625098aba5f7725e9a042f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 31/32] fix: union of scenarios

---
 src/pygmm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 146f433..1c4654c 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -119,9 +119,9 @@ class Scenario(collections.UserDict):
         "width",
     ]
 
-    def __init__(self, **kwds):
+    def __init__(self, data=None, /, **kwds):
         """Initialize the scenario."""
-        super().__init__(kwds)
+        super().__init__(data, **kwds)
         self._check_keys(self.keys())
 
     def __getattr__(self, item):
-- 
2.43.0


From a4a0321076f2ae08210629be5fae02474a7664f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 32/32] fix: deviations of PGA, PGV, and PGD of models without
 standard deviation are not implemented

---
 src/pygmm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 1c4654c..9a4cd6a 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -337,7 +337,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pga(self) -> float:
         """Peak ground accelaration log-standard deviation."""
-        if self.INDEX_PGA is None:
+        if self.INDEX_PGA is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGA]
@@ -353,7 +353,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgv(self) -> float:
         """Peak ground velocity log-standard deviation."""
-        if self.INDEX_PGV is None:
+        if self.INDEX_PGV is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGV]
@@ -369,7 +369,7 @@ class GroundMotionModel(Model):
     @property
     def ln_std_pgd(self) -> float:
         """Peak ground displacement log-standard deviation."""
-        if self.INDEX_PGD is None:
+        if self.INDEX_PGD is None or self._ln_std is None:
             raise NotImplementedError
         else:
             return self._ln_std[self.INDEX_PGD]
-- 
2.43.0

