From 6070145b25e9da55775c58b44c3958142dd7285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 01/33] fix: do not shift the caller's height array in place

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..cd6028f 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -99,7 +99,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From 38e6f25369ad6ef9473aa42dcd85a300323569ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 02/33] fix: detect descending and non-monotonic profiles and
 flip every per-level input

all(dz) > 0 compares the truth of all() with zero, so a top-down profile was
never flipped and a non-monotonic one never refused; ozone and cloud densities
were not reversed together with the other profiles.
---
 pyrtlib/tb_spectrum.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index cd6028f..96f3f65 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,13 +66,17 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        self._flipped = False
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
+            self._flipped = True
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            if isinstance(o3n, np.ndarray):
+                self.o3n = o3n[::-1]
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -215,8 +219,8 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0


From aab6694c95b5aa405ab9f1943b137ff0f2faf734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 03/33] fix: start every run from fresh result arrays

A clear-sky run after a cloudy one on the same object kept the cloud opacity,
and tables already returned were overwritten by the next run.
---
 pyrtlib/tb_spectrum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 96f3f65..4b15e89 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -105,6 +105,12 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
+        self._allocate()
+
+        if absmdl:
+            self.init_absmdll(absmdl)
+
+    def _allocate(self) -> None:
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
         self.sptauwet = np.zeros((self.nf, self.nang))
@@ -127,9 +133,6 @@ class TbCloudRTE(object):
         self.sliq = np.zeros((1, self.nang))
         self.sice = np.zeros((1, self.nang))
 
-        if absmdl:
-            self.init_absmdll(absmdl)
-
     @property
     def satellite(self) -> bool:
         """If :code:`True` computes an upward-propagating brightness-temperature spectrum
@@ -309,6 +312,7 @@ class TbCloudRTE(object):
             If only_bt = False it also returns all intermediate RT variables.
         """
 
+        self._allocate()
         self._init_linelist()
 
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
-- 
2.43.0


From d011059bb0af5d995984cc462942efad1ca2378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 04/33] fix: call init_absmdl when absmdl is given to the
 constructor

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 4b15e89..a73a1e2 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -108,7 +108,7 @@ class TbCloudRTE(object):
         self._allocate()
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     def _allocate(self) -> None:
         # Allocation
-- 
2.43.0


From 579caffcf8227d8e747840c7ba6f93b755a7bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 05/33] fix: reload the ozone line list at every run

The water-vapour and oxygen lists are reloaded, so perturbed parameters do not
outlive the run; the ozone list kept them.
---
 pyrtlib/tb_spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index a73a1e2..4c7051a 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -199,6 +199,9 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        if isinstance(self.o3n, np.ndarray) and \
+                O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From 90f33af9d0f6fc9fe962ef4e7e86927bcf4350a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 06/33] fix: oxygen absorption must not write into the caller's
 parameter arrays

---
 pyrtlib/absorption_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..6d757b9 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -769,6 +769,7 @@ class O2AbsModel(AbsModel):
         if amu:
             self.o2ll.w2a = amu['w2a'].value
             # self.o2ll.apu = amu['APU'].value
+            self.o2ll.w300 = np.copy(self.o2ll.w300)
             self.o2ll.w300[0:38] = amu['O2gamma'].value[0:38]
             self.o2ll.w300[34:49] = amu['O2gamma_NL'].value[34:49]
             self.o2ll.wb300 = amu['WB300'].value
@@ -787,9 +788,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = np.copy(amu['Y300'].value)
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = np.copy(amu['O2_V'].value)
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From a728b7cf4e525c0c74d952470fedf584c7f75cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 07/33] fix: accept every model from R16 on for cloud liquid
 absorption

R18, R20SD, R21SD, R22 and MWL24 are supported clear-sky models but a cloudy run
with them ended with 'No model available'.
---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 6d757b9..df29eca 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -163,7 +163,7 @@ class LiqAbsModel(AbsModel):
             fs = np.dot(39.8, fp)
             eps = (eps0 - eps1) / complex(1.0, freq / fp) + \
                 (eps1 - eps2) / complex(1.0, freq / fs) + eps2
-        elif LiqAbsModel.model in ['R17', 'R16', 'R19', 'R20', 'R19SD', 'R22SD', 'R23', 'R23SD', 'R24']:
+        elif LiqAbsModel.model in ['R17', 'R16', 'R18', 'R19', 'R20', 'R19SD', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']:
             eps = dilec12(freq, temp)
         else:
             raise ValueError(
-- 
2.43.0


From ab54ad65347111ace0739d3bb3b40c869e0d919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 08/33] fix: choose perturbable parameters by what the model's
 line list holds

Comparing model names as strings ('R98' > 'R17', 'R19SD' > 'R19', 'MWL24' < 'R17')
sent several models to the wrong branch, so that their parameters could not be
read or written back.
---
 pyrtlib/absorption_model.py               | 14 ++++++++++----
 pyrtlib/uncertainty/absmod_uncertainty.py | 16 +++++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index df29eca..01562da 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -454,7 +454,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
             else:
@@ -468,12 +468,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            elif H2OAbsModel.model != 'R98':
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -782,7 +782,13 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
+            if O2AbsModel.model in ['R23', 'R24']:
+                self.o2ll.y300 = np.copy(amu['Y300'].value)
+                self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
+                self.o2ll.y1 = amu['y1'].value
+                self.o2ll.dnu0 = amu['dnu0'].value
+                self.o2ll.dnu1 = amu['dnu1'].value
+            elif O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
                 self.o2ll.y0 = amu['y0'].value
                 self.o2ll.y1 = amu['y1'].value
                 self.o2ll.dnu0 = amu['dnu0'].value
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..ef88a84 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -124,7 +124,7 @@ class SpectroscopicParameter:
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
-        if H2OAbsModel.model > 'R17':
+        if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
@@ -135,10 +135,12 @@ class SpectroscopicParameter:
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
 
+            if H2OAbsModel.model != 'R98':
+                h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
+
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
         return h2o_sp
@@ -172,7 +174,15 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
+        if O2AbsModel.model in ['R23', 'R24']:
+            o2_sp_ = {
+                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
+                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
+                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
+            }
+        elif O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
             o2_sp_ = {
                 "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
                 "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
-- 
2.43.0


From 5a67c8cfdc9097ba3db3bc0bd8add59c73095b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 09/33] fix: report the atmospheric term of the satellite view

For the satellite view the integral ends at level 0; the last element is the
starting zero, so tbatm was always 0.
---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 4c7051a..65f3039 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -389,7 +389,7 @@ class TbCloudRTE(object):
                                                                                boftatm)
                 # assign output values
                 self.tbtotal[j, k] = RTEquation.bright(hvk, boftotl)
-                self.tbatm[j, k] = RTEquation.bright(hvk, boftatm[self.nl - 1])
+                self.tbatm[j, k] = RTEquation.bright(hvk, boftatm[0 if self._satellite else self.nl - 1])
                 self.tmr[j, k] = RTEquation.bright(hvk, boftmr)
 
         df = pd.DataFrame()
-- 
2.43.0


From ae7e56d3aee752a8b67dbc802bc9dad2146b9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 10/33] fix: index the temperature array when computing vapour
 pressure over ice

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..11d2013 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From 0f75d8ac9e345a7f6c164c208d9842eb8f8ac794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 11/33] fix: include the topmost layer of a cloud in its
 integrated density

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index 11d2013..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From 3e0d4cc956b3e0c5521944f9ecd5d4703d4fd2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 12/33] fix: report a failed ray tracing instead of
 dereferencing its missing result

---
 pyrtlib/tb_spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 65f3039..cbb2032 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -335,6 +335,8 @@ class TbCloudRTE(object):
             if self.ray_tracing:
                 ds = RTEquation.ray_tracing(
                     self.z, refindx, self.angles[k], self.z0)
+                if ds is None:
+                    raise ValueError("ray tracing is not possible: refractive index lower than 1")
             else:
                 amass = 1 / np.sin(self.angles[k] * np.pi / 180)
                 ds = np.append([0], np.diff(self.z) * amass)
-- 
2.43.0


From 6d5f3869b3e53026f4443e5b9fe9982ddeac3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 13/33] fix: test the sign of the density before reducing it

x.any() <= 0 compares a truth value with zero, so a negative density was accepted.
---
 pyrtlib/absorption_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 01562da..6b81261 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -490,7 +490,7 @@ class H2OAbsModel(AbsModel):
         f = frq
         # cyh ***********************************************
 
-        if rho.any() <= 0.0:
+        if not np.any(rho > 0.0):
             npp = 0
             ncpp = 0
             return npp, ncpp
@@ -1065,7 +1065,7 @@ class O3AbsModel(AbsModel):
             self.o3ll.x = amu['O3_X'].value
             self.o3ll.sr = amu['O3_SR'].value
 
-        if o3n.any() <= 0:
+        if not np.any(o3n > 0):
             abs_o3 = 0
             return abs_o3
 
-- 
2.43.0


From dc3cb494ba2d87e4adbb22f03a156e4637604ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 14/33] fix: self-continuum temperature dependence is a power

Matches the foreign term and every other model; reached when a positive
coefficient is given instead of the tabulated -1.
---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 6b81261..a72b405 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -534,7 +534,7 @@ class H2OAbsModel(AbsModel):
                 if self.h2oll.cs > 0:
 
                     # npp_cs = np.zeros(1)
-                    con = self.h2oll.cs * ti * self.h2oll.xcs
+                    con = self.h2oll.cs * ti ** self.h2oll.xcs
                     # for i in len(frq):
                     npp_cs = con
                 else:
-- 
2.43.0


From f027300c2051616350093a9bf6a595015b5fb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 15/33] fix: extrapolate on a local height grid

The grid kept on the object was overwritten by each call, so a second call gave
a different result, and profiles reaching 50 km used an index never assigned.
---
 pyrtlib/climatology/extrapolation.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..3fd5530 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -314,31 +314,32 @@ class ProfileExtrapolation:
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
             idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
+            height = np.append(h_km, self._height[idx])
         else:
-            self._height = np.append(z, self._height[idx])
+            idx = np.where(self._height > np.max(z))
+            height = np.append(z, self._height[idx])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
             wvd = self.instance.standard_water_vapour_density(
-                self._height)
+                height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From 2be77d5442c9e321fe628701ff95fe1f33035ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 16/33] fix: append relative humidity as a fraction when
 extrapolating

rho2rh returns percent while the measured profile is a fraction.
---
 pyrtlib/climatology/extrapolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index 3fd5530..854c977 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -336,7 +336,7 @@ class ProfileExtrapolation:
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
-        _rh = rho2rh(wvd, temp, pres)[0]
+        _rh = rho2rh(wvd, temp, pres)[0] / 100
         rh = np.append(rh, _rh[idx])
 
         return height, pres, temp, rh
-- 
2.43.0


From 77900795639aa9c2bda89665e8c0529c6d40e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 17/33] fix: refuse gas IDs without a molecular mass

---
 pyrtlib/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..d4d2b7f 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -201,6 +201,8 @@ def gas_mass(gasid: int) -> float:
         amus = 1 + 12 + np.dot(2, 16) + 1
     if gasid == 99:
         amus = 28.9402753669
+    if gasid not in range(32) and gasid != 99:
+        raise ValueError('No mass available for gas ID {}'.format(gasid))
 
     mass_proton = 1.6726485e-27
     mass_molecule = np.dot(mass_proton, amus)
-- 
2.43.0


From 92f3fff0ac1b44d88fda55f338613a6b0cf73e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 18/33] fix: refuse identifiers outside the profile catalogue

Negative column numbers returned another gas's profile and an unknown climate
ended in an unassigned variable.
---
 pyrtlib/climatology/atmospheric_profiles.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..a31dfae 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -209,6 +209,9 @@ class AtmosphericProfiles:
             # 45.5397
             mtx = np.loadtxt(os.path.join(path, "us_standard.dat"))
 
+        else:
+            raise ValueError("No atmosphere available with this ID: {}".format(atm))
+
         # Altitude (km)
         a = mtx[:, 0]
         # Pressue (mb)
@@ -263,6 +266,8 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
+        if gas_minor not in range(7, 28):
+            raise ValueError("No minor gas available with this ID: {}".format(gas_minor))
         gas_minor -= 7
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
@@ -321,6 +326,8 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
+        if gas_trace not in range(28, 44):
+            raise ValueError("No trace gas available with this ID: {}".format(gas_trace))
         gas_trace -= 28
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
-- 
2.43.0


From 35835956785b8b4a4bca9bb19b7c4e7bfe00584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 19/33] fix: MWS channel 10 has one sideband on each side of
 its centre

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index d4d2b7f..a1eacdc 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -997,7 +997,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
         freq = np.array([23.8, 31.4, 50.3, 52.8,
                         53.246-0.08, 53.246+0.08, 53.596-0.115, 53.596+0.115, 53.948-0.081, 53.948+0.081,
                         54.4, 54.94, 55.5, cf57,
-                        cf57-0.217, cf57-0.217,
+                        cf57-0.217, cf57+0.217,
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-- 
2.43.0


From 72554865ec179f7e935947acd488b52ce1778b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 20/33] fix: request derived soundings under their own file
 name

The suffix was appended to the raw data one, so the address did not exist and
the derived-format parser was never selected.
---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From c112ed4cb3aafc360b5b9dfa50cc93abd8b5db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 21/33] fix: decode the HHMM release time from the padded field

The value is zero-filled to five characters, hours are characters 1-2.
---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..4d9e634 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -265,8 +265,8 @@ class IGRAUpperAir(HTTPEndPoint):
                         seconds = int(time[3:5])
                         time_seconds = minutes * 60 + seconds
                     elif strformat == 'HHMM':
-                        hours = int(time[0:2])
-                        minutes = int(time[2:4])
+                        hours = int(time[1:3])
+                        minutes = int(time[3:5])
                         time_seconds = hours * 3600 + minutes * 60
                     else:
                         sys.exit('Unrecognized time format')
-- 
2.43.0


From 1e52ad604e4b37d5b1201ad061073a71e21904c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 22/33] fix: decode station coordinates within 0.1 degree of
 zero

With fewer than four digits the split at n - 4 counts from the wrong end.
---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 4d9e634..0905e85 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 10**4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From dd240d3168be42c58d23104c1f411603421ebeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 23/33] fix: read the whole field of two derived-sounding
 columns

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 0905e85..5cb9412 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -290,7 +290,7 @@ class IGRAUpperAir(HTTPEndPoint):
             colspecs_body = [(0, 7), (8, 15), (16, 23), (24, 31), (32, 39),
                              (40, 47), (48, 55), (56, 63), (64, 71), (72, 79),
                              (80, 87), (88, 95), (96, 103), (104, 111), (112, 119),
-                             (120, 127), (128, 135), (137, 143), (144, 151)]
+                             (120, 127), (128, 135), (136, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
                          'reported_height': int,
@@ -322,7 +322,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From e3f42e765a6690e5b74e07a5980f61f43e55ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 24/33] fix: label relative humidity read from ERA5 with its
 unit

The values are divided by 100 but were labelled as percent.
---
 pyrtlib/apiwebservices/erafive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..dccaf52 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -56,7 +56,7 @@ class ERA5Reanalysis:
                 {'p': 'hPa',
                 'z': 'km',
                 't': 'K',
-                'rh': '%',
+                'rh': 'fraction',
                 'clwc': 'kg kg-1',
                 'ciwc': 'kg kg-1',
                 'crwc': 'kg kg-1',
@@ -107,7 +107,7 @@ class ERA5Reanalysis:
         df.attrs['units'] = {'p': 'hPa',
                              'z': 'km',
                              't': 'K',
-                             'rh': '%',
+                             'rh': 'fraction',
                              'clwc': 'kg kg-1',
                              'ciwc': 'kg kg-1',
                              'crwc': 'kg kg-1',
-- 
2.43.0


From ff1381553e3a37c34eba9589a6cffd556e41123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 25/33] fix: close the datasets opened for reading

---
 pyrtlib/absorption_model.py           | 4 ++++
 pyrtlib/apiwebservices/eps_sandbox.py | 2 ++
 pyrtlib/apiwebservices/erafive.py     | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index a72b405..e30c1d4 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -115,6 +115,10 @@ class AbsModel:
                  "WaterVapour": list(wv_netcdf.groups.keys()),
                  "Ozone": list(ozone_netcdf.groups.keys())}
 
+        oxygen_netcdf.close()
+        wv_netcdf.close()
+        ozone_netcdf.close()
+
         return model
 
 
diff --git a/pyrtlib/apiwebservices/eps_sandbox.py b/pyrtlib/apiwebservices/eps_sandbox.py
index ef0cfd7..977de44 100644
--- a/pyrtlib/apiwebservices/eps_sandbox.py
+++ b/pyrtlib/apiwebservices/eps_sandbox.py
@@ -135,6 +135,8 @@ class EUMETSATProduct:
         date = pd.to_datetime(
             nc.variables['time'][:], origin='1900-01-01 00:00:00.0', unit='h')
 
+        nc.close()
+
         df = pd.DataFrame({'p': np.flip(pres),
                            'z': np.flip(z),
                            't': np.flip(temp[0]),
diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index dccaf52..c0c2281 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -92,6 +92,8 @@ class ERA5Reanalysis:
         date = pd.to_datetime(
             nc.variables['time'][:], origin='1900-01-01 00:00:00.0', unit='h')
 
+        nc.close()
+
         df = pd.DataFrame({'p': np.flip(pres),
                            'z': z,
                            't': np.flip(temp[0]),
-- 
2.43.0


From 2305d96ae5dad7775cc12b08b76ea03d99677fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 26/33] fix: plotting band means must not replace the
 calculator's frequencies

A second plot or calculation used the band means as frequencies, and the means
were taken from overlapping slices instead of each band's own frequencies.
---
 pyrtlib/weighting_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..9a87204 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -230,8 +230,11 @@ class WeightingFunctions(object):
 
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            frequencies = np.array(
+                [np.mean(self.frequencies[sum(self.bandpass[:i]):sum(self.bandpass[:i+1])])
+                 for i, _ in enumerate(self.bandpass)])
+        else:
+            frequencies = self.frequencies
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +250,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From 738dd82fb728e724d9728daeccf5af68849199e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 27/33] fix: one normalisation factor per channel

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9a87204..cd17a7c 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -246,7 +246,7 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-- 
2.43.0


From b9b1dc52a43efcdb081579e0583954c2163287a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 28/33] fix: keep the optional EUMETSAT dependency optional

Its import is guarded, but annotations named it at class creation.
---
 pyrtlib/apiwebservices/eps_sandbox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrtlib/apiwebservices/eps_sandbox.py b/pyrtlib/apiwebservices/eps_sandbox.py
index 977de44..189088f 100644
--- a/pyrtlib/apiwebservices/eps_sandbox.py
+++ b/pyrtlib/apiwebservices/eps_sandbox.py
@@ -5,6 +5,8 @@ To get cinsumer_key and consumer_secret you have to registered to EPS system.
 Credentials may be found to the following link https://api.eumetsat.int/api-key/
 """
 
+from __future__ import annotations
+
 __author__ = ''
 __date__ = 'March 2023'
 __copyright__ = '(C) 2021, CNR-IMAA'
-- 
2.43.0


From ad42962daacad8c7897cc3cc5fb0bc8bc786e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 29/33] fix: standard atmosphere between geopotential 84.852 km
 and 86 km

The layer from a geopotential height of 84.852 km was only entered at a
geometric height of 86 km; the two differ by about 20 m, where temperature and
pressure fell through to their last-resort defaults (195 K, 1e-62 hPa).
---
 pyrtlib/climatology/extrapolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index 854c977..1eb251b 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -382,7 +382,7 @@ class _ITU835_6():
                                                     270.65 - 2.8 * (h_p - 51),
                                                     np.where(np.logical_and(71 < h_p, h_p <= 84.852),
                                                     214.65 - 2.0 * (h_p - 71),
-                                                    np.where(np.logical_and(86 <= h, h <= 91),
+                                                    np.where(np.logical_and(84.852 < h_p, h <= 91),
                                                              186.8673,
                                                              np.where(np.logical_and(91 < h, h <= 100),
                                                              263.1905 - 76.3232 *
@@ -422,7 +422,7 @@ class _ITU835_6():
                                                                       0.03956649 *
                                                                       (214.65 / (214.65 - 2.0 *
                                                                        (h_p - 71)))**(-34.1632 / 2.0),
-                                                                      np.where(np.logical_and(86 <= h, h <= 100),
+                                                                      np.where(np.logical_and(84.852 < h_p, h <= 100),
                                                                                np.exp(95.571899 - 4.011801 * h + 6.424731e-2 * h**2 -
                                                                                       4.789660e-4 * h**3 + 1.340543e-6 * h**4),
                                                                                1e-62)))))))).astype(float)
-- 
2.43.0


From 089d9eff1d80c8f899d469698d620b698057a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 30/33] fix: normalize the weighting functions plotted in
 ground mode as well

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index cd17a7c..59e5f8e 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -256,7 +256,7 @@ class WeightingFunctions(object):
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
                          label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')
             else:
-                plt.plot(wgt[i, :], self.zinterp,
+                plt.plot(wgt[i, :]/normalize[i], self.zinterp,
                          label=f'{frequenciy:.2f} GHz')
 
         # if yaxis == 'p':
-- 
2.43.0


From c3f756e0c264fc40495cb8eb1e37340a489ec9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 31/33] fix: blank fields of a Wyoming sounding no longer shift
 the following columns

---
 pyrtlib/apiwebservices/wyomingupperair.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..eb18418 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,8 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # every column of the listing is seven characters wide, missing values are left blank
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, widths=[7] * len(col_names), names=col_names)
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From afe83c57b14bac91bdc00ba95c0a926364eddaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 32/33] fix: the vapour pressures of IGRA derived soundings are
 in hPa

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5cb9412..8928142 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -424,8 +424,8 @@ class IGRAUpperAir(HTTPEndPoint):
                                  'potential_temperature_gradient': 'Kelvin / kilometer',
                                  'virtual_temperature': 'Kelvin',
                                  'virtual_potential_temperature': 'Kelvin',
-                                 'vapor_pressure': 'Pascal',
-                                 'saturation_vapor_pressure': 'Pascal',
+                                 'vapor_pressure': 'hPa',
+                                 'saturation_vapor_pressure': 'hPa',
                                  'reported_relative_humidity': 'percent',
                                  'calculated_relative_humidity': 'percent',
                                  'relative_humidity_gradient': 'percent / kilometer',
-- 
2.43.0


From a293a8f8f9e6dfd15ee6a16c824fc4d17ecb6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 33/33] fix: the unknown hour (99) of a sounding header is a
 missing value

---
 pyrtlib/apiwebservices/igra2.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 8928142..ddbd94a 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -277,6 +277,10 @@ class IGRAUpperAir(HTTPEndPoint):
         def _clatlon(x):
             return float(x) / 10**4
 
+        def _chour(val):
+            """Convert the hour of observation, 99 if it is unknown."""
+            return np.nan if val == '99' else int(val)
+
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
                           'temperature', 'temperature_gradient', 'potential_temperature',
@@ -333,7 +337,7 @@ class IGRAUpperAir(HTTPEndPoint):
                            'year': int,
                            'month': int,
                            'day': int,
-                           'hour': int,
+                           'hour': _chour,
                            'release_time': _ctime(strformat='HHMM'),
                            'number_levels': int,
                            'precipitable_water': _cdec(power=2),
@@ -393,7 +397,8 @@ class IGRAUpperAir(HTTPEndPoint):
 
             na_vals = ['-8888', '-9999']
 
-            conv_header = {'release_time': _ctime(strformat='HHMM'),
+            conv_header = {'hour': _chour,
+                           'release_time': _ctime(strformat='HHMM'),
                            'number_levels': int,
                            'latitude': _clatlon,
                            'longitude': _clatlon}
-- 
2.43.0

