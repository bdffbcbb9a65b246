From 66377dbe5723b856467060d6eadbd3aa25a4fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 01/75] fix: canard characteristic length and fineness kept
 their previous values when the area drops to zero

---
 .../subsystems/geometry/flops_based/characteristic_lengths.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..4cdd43b 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -600,6 +600,8 @@ class CanardCharacteristicLength(om.ExplicitComponent):
         area = inputs[Aircraft.Canard.AREA]
 
         if area <= 0.0:
+            outputs[Aircraft.Canard.CHARACTERISTIC_LENGTH] = 0.0
+            outputs[Aircraft.Canard.FINENESS] = 0.0
             return
 
         thickness_to_chord = inputs[Aircraft.Canard.THICKNESS_TO_CHORD]
-- 
2.43.0


From 476cb920b7766f7c2489497031262516db03825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 02/75] fix: main gear length partials with dimensional engine
 locations and several engine types

---
 .../subsystems/geometry/flops_based/landing_gear.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..df3600d 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
@@ -184,9 +184,12 @@ class MainGearLength(om.ExplicitComponent):
                 dcmlg_dhw * dhw_dfuse_wid
             )
 
-            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER][
-                :
-            ] = dcmlg_dnac
+            # only the first engine type is used in compute
+            dcmlg_dnac_all = np.zeros_like(inputs[Aircraft.Nacelle.AVG_DIAMETER])
+            dcmlg_dnac_all[0] = dcmlg_dnac
+            partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Nacelle.AVG_DIAMETER] = (
+                dcmlg_dnac_all
+            )
 
             partials[Aircraft.LandingGear.MAIN_GEAR_OLEO_LENGTH, Aircraft.Engine.WING_LOCATIONS] = (
                 dcmlg_dyee * dyee_dwel
-- 
2.43.0


From 8eaf7c4ae1b31d879fe6870c5095603643580b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 03/75] fix: BWB hydraulic diameter partial with respect to
 aisle width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..d19c81d 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,7 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+            / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
-- 
2.43.0


From f93c9b9fc3d54544de31d2e118555add24c49864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 04/75] fix: BWB fuselage wetted area partial with respect to
 additional pressurized width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index d19c81d..b9adf9c 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -1083,7 +1083,7 @@ class BWBFuselageSize(om.ExplicitComponent):
         d_cabin_area_d_nose_area = 2.0
 
         d_aft_d_body_width = 2.0 * diag_a_c
-        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 * diag_a_c
+        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 / diag_a_a
         d_aft_d_aft_len = (
             2 * body_width - additional_width
         ) * aftbody_len / diag_a_c + cabin_height * aftbody_len / diag_a_a
-- 
2.43.0


From aa676b4af676b81b31777f1b248897222eeddd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 05/75] fix: BWB wing volume partials with respect to main gear
 location in the smoothed branch

---
 aviary/subsystems/geometry/gasp_based/wing.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 2969b13..1b30d6d 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -612,7 +612,7 @@ class BWBWingVolume(om.ExplicitComponent):
 
         if smooth:
             WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = dSigmoidXdx(loc_main_gear, 0.0, mu) / mu
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
@@ -644,7 +644,9 @@ class BWBWingVolume(om.ExplicitComponent):
             1.0 + 2.0 * (0.5 * fuselage_width + WID_GRX) * (taper_ratio - 1.0) / wingspan
         )
         dCFUEL_dSWF = (taper_ratio - 1.0) * center_chort / wingspan
-        dCFUEL_dloc_main_gear = 2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) / wingspan
+        dCFUEL_dloc_main_gear = (
+            2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) * center_chort / wingspan
+        )
         dCFUEL_dtaper_ratio = 2.0 * (0.5 * fuselage_width + WID_GRX) * center_chort / wingspan
         dCFUEL_dwingspan = (
             -2.0
@@ -664,7 +666,10 @@ class BWBWingVolume(om.ExplicitComponent):
             -0.5 * (CFUEL + taper_ratio * center_chort)
             + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dSWF
         )
-        dSW_NFX_dloc_main_gear = -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+        dSW_NFX_dloc_main_gear = (
+            -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+            + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dloc_main_gear
+        )
         dSW_NFX_dtaper_ratio = (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * (
             dCFUEL_dtaper_ratio + center_chort
         )
@@ -700,7 +705,11 @@ class BWBWingVolume(om.ExplicitComponent):
             - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dSWF / SW_NFX**2
         )
         dAR_NFX_dloc_main_gear = (
-            -((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
+            -4.0
+            * (wingspan - fuselage_width - 2.0 * WID_GRX)
+            * dWID_GRX_dloc_main_gear
+            / SW_NFX
+            - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dloc_main_gear / SW_NFX**2
         )
         dAR_NFX_dwingspan = (
             2 * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
-- 
2.43.0


From 612722ddf8ac55d13643af6edaf744968e417fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 06/75] fix: anti-icing and starter mass partials with several
 engine types

---
 aviary/subsystems/mass/flops_based/distributed_prop.py |  2 +-
 aviary/subsystems/mass/flops_based/starter.py          | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/distributed_prop.py b/aviary/subsystems/mass/flops_based/distributed_prop.py
index 8edab19..c8d843b 100644
--- a/aviary/subsystems/mass/flops_based/distributed_prop.py
+++ b/aviary/subsystems/mass/flops_based/distributed_prop.py
@@ -78,7 +78,7 @@ def distributed_nacelle_diam_factor_deriv(num_eng: int) -> float:
     except TypeError:
         total_num_engines = num_eng
 
-    deriv = 1.0
+    deriv = num_eng / total_num_engines
     if total_num_engines > 4:
         deriv = num_eng * (0.5 * total_num_engines**0.5) / total_num_engines
 
diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..f6ef4d0 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -68,23 +68,23 @@ class TransportStarterMass(om.ExplicitComponent):
 
         diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From d6f53c22239f0acbc29f7eb97762e2f4cc8a378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 07/75] fix: surface control mass partials omitted the surface
 control mass scaler

---
 aviary/subsystems/mass/gasp_based/control.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..89e2486 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -250,19 +250,21 @@ class SurfaceControlMass(om.ExplicitComponent):
             Aircraft.Wing.SURFACE_CONTROL_MASS_COEFFICIENT,
         ] = dSCW_dSWCC / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = dSCW_dWA / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.AREA] = (
+            CK18 * dSCW_dWA / GRAV_ENGLISH_LBM
+        )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Design.GROSS_MASS] = CK18 * dSCW_dWG
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
-            dSCW_dULF / GRAV_ENGLISH_LBM
+            CK18 * dSCW_dULF / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Wing.SURFACE_CONTROL_MASS_SCALER] = (
             intermediate_control_wt - intermediate_cockpit_control_wt
         ) / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = dSCW_dMDV / GRAV_ENGLISH_LBM
+        J[Aircraft.Wing.SURFACE_CONTROL_MASS, 'min_dive_vel'] = CK18 * dSCW_dMDV / GRAV_ENGLISH_LBM
 
         J[Aircraft.Wing.SURFACE_CONTROL_MASS, Aircraft.Controls.COCKPIT_CONTROL_MASS] = -CK18 / CK15
 
-- 
2.43.0


From 3577e0d673c3ec5437f160d87ce19a6726993d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 08/75] fix: load speed partials for part 25 structural
 category 1 assumed the speed limit was always active

---
 aviary/subsystems/mass/gasp_based/design_load.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..300ec80 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
-- 
2.43.0


From 8f5dc41f1ea85f0ea6dddb93d72d6a6169d07d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 09/75] fix: pylon mass partials omitted the nacelle mass
 scaler

---
 aviary/subsystems/mass/gasp_based/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..7549980 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
-- 
2.43.0


From a426cb7c5207d8cb7a8ee57e4c96d547881b3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 10/75] fix: wing mounted mass partial with respect to engine
 location ignored the additional mass input

---
 aviary/subsystems/mass/gasp_based/engine.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 7549980..5c250b2 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -508,7 +508,6 @@ class WingMountEngineMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
         num_engine_type = len(num_engines)
-        c_instl = self.options[Aircraft.Engine.ADDITIONAL_MASS_FRACTION]
 
         eng_spec_wt = inputs[Aircraft.Engine.MASS_SPECIFIC] * GRAV_ENGLISH_LBM
         Fn_SLS = inputs[Aircraft.Engine.SCALED_SLS_THRUST]
@@ -531,7 +530,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
-- 
2.43.0


From 03c50c27a33d2c9d92cc323d76c82611893aab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 11/75] fix: tail mass partials omitted the tail mass scalers

---
 aviary/subsystems/mass/gasp_based/fixed.py | 56 +++++++++++++++-------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..49ea4b6 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -649,6 +649,7 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
     def compute_partials(self, inputs, J):
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
         gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         coef_htail = inputs[Aircraft.HorizontalTail.MASS_COEFFICIENT]
         fus_len = inputs[Aircraft.Fuselage.LENGTH]
@@ -725,7 +726,8 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -737,7 +739,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_area ** (-0.46)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            350.0
+            CK9
+            * 350.0
             * 0.54
             * (
                 htail_area
@@ -749,7 +752,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dGrossWtInitial
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -762,7 +766,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dCoefHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -775,7 +780,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dFusLen
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -788,7 +794,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dSpanHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -801,7 +808,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dHookFac
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -814,7 +822,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dTaperRatioHtail
         )
         J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (htail_area * FH / (100.0 * htail_mom_arm * tc_ratio_root_htail * root_chord_htail))
@@ -823,7 +832,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -836,7 +846,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_mom_arm ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -849,7 +860,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * tc_ratio_root_htail ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -1007,6 +1019,7 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
     def compute_partials(self, inputs, J):
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
         taper_ratio_vtail = inputs[Aircraft.VerticalTail.TAPER_RATIO]
         AR_vtail = inputs[Aircraft.VerticalTail.ASPECT_RATIO]
         quarter_sweep_tail = inputs[Aircraft.VerticalTail.SWEEP]
@@ -1185,7 +1198,8 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
         temp = (
-            380.0
+            CK10
+            * 380.0
             * (
                 vtail_area
                 * np.log10(min_dive_vel)
@@ -1260,7 +1274,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 vtail_area
@@ -1274,7 +1289,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1286,7 +1302,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_area ** (-0.46)
         )
         J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1299,7 +1316,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1312,7 +1330,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_mom_arm ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1325,7 +1344,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * tc_ratio_root_vtail ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
-- 
2.43.0


From b3d6bc6a365d3b95112861a5d4ee01211272a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 12/75] fix: smoothed gear location factor partial was 100
 times too large

---
 aviary/subsystems/mass/gasp_based/fixed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 49ea4b6..6d91586 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -241,9 +241,9 @@ class MassParameters(om.ExplicitComponent):
         J['c_strut_braced', Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS] = -2 * strut_x
 
         if smooth:
-            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.95 * (-100) * dSigmoidXdx(
+            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = -0.95 * dSigmoidXdx(
                 loc_main_gear, 0.005, 0.01 / 320.0
-            ) + 1 * (100) * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
+            ) + 1 * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
         else:
             J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.0
 
-- 
2.43.0


From 213954e58bda213c2207c96cdbddab2e57584bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 13/75] fix: BWB fuselage mass partials omitted the fuselage
 mass scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..9d14751 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1195,6 +1195,7 @@ class BWBFuselageMass(om.ExplicitComponent):
         area_aft_to_total = inputs[Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL]
         uwt_aft = inputs[Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] * GRAV_ENGLISH_LBM
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
 
         dFusWt_dc_fuselage = (
             1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
@@ -1210,14 +1211,16 @@ class BWBFuselageMass(om.ExplicitComponent):
         dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
         dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
-        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = dFusWt_darea_cabin
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = CK11 * dFusWt_dc_fuselage
+        J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = CK11 * dFusWt_dgross_wt_initial
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.CABIN_AREA] = CK11 * dFusWt_darea_cabin
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA_RATIO_AFTBODY_TO_TOTAL] = (
-            dFusWt_darea_aft_to_total
+            CK11 * dFusWt_darea_aft_to_total
+        )
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = (
+            CK11 * dFusWt_duwt_aft
         )
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.AFTBODY_MASS_PER_UNIT_AREA] = dFusWt_duwt_aft
-        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = dFusWt_dfus_SA
+        J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.WETTED_AREA] = CK11 * dFusWt_dfus_SA
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_SCALER] = (
             c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
             + c_fuselage * fus_SA * area_aft_to_total * uwt_aft
-- 
2.43.0


From 10f9bfdb930c15d8ba7707c648746130a3c01e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 14/75] fix: fuselage mass partial with respect to acoustic
 treatment omitted the mass scaler

---
 aviary/subsystems/mass/gasp_based/fuel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 9d14751..006d4e1 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1137,7 +1137,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
-- 
2.43.0


From 25be555c7bebb7065e8e3c20cb8257dae1a3b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 15/75] fix: signs of the smoothed maximum wing fuel mass
 partials

---
 aviary/subsystems/mass/gasp_based/fuel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 006d4e1..fba42c6 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -670,7 +670,7 @@ class FuelComponents(om.ExplicitComponent):
             dMaxWFWt_dGTOW = (
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
-                * dOEMwingfuelWt_dGTOW
+                * -dOEMwingfuelWt_dGTOW
                 + dOEMwingfuelWt_dGTOW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
@@ -679,7 +679,7 @@ class FuelComponents(om.ExplicitComponent):
             dMaxWFWt_dOEW = (
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
-                * dOEMwingfuelWt_dOEW
+                * -dOEMwingfuelWt_dOEW
                 + dOEMwingfuelWt_dOEW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
@@ -691,7 +691,7 @@ class FuelComponents(om.ExplicitComponent):
                 * rho_fuel
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
-                * rho_fuel
+                * -rho_fuel
                 + rho_fuel * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
             )
             dMaxWFWt_dRhoFuel = (
@@ -700,7 +700,7 @@ class FuelComponents(om.ExplicitComponent):
                 * geometric_fuel_vol
                 + volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
-                * geometric_fuel_vol
+                * -geometric_fuel_vol
                 + geometric_fuel_vol * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
             )
 
-- 
2.43.0


From 3fc047e4db2a7a044a1f624cbf877d6742994d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 16/75] fix: smoothed body tank partials

---
 aviary/subsystems/mass/gasp_based/fuel.py | 32 ++++++++---------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index fba42c6..fb91383 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -266,14 +266,12 @@ class BodyTankCalculations(om.ExplicitComponent):
                 sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                 + (req_fuel_wt - max_wingfuel_wt)
                 * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
-                * 1
-                / 50
             )
             dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
                 (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
-            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
+            ) - (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
                 req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
-            ) * (-1 / 50)
+            )
         else:
             if extra_fuel_wt < 0:
                 extra_fuel_wt = 0.0
@@ -288,7 +286,6 @@ class BodyTankCalculations(om.ExplicitComponent):
         dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
         dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
         if smooth:
-            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
             dwingfuel_wt_min_dfuel_wt_min = (
                 dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
@@ -315,6 +312,7 @@ class BodyTankCalculations(om.ExplicitComponent):
                 dwingfuel_wt_min_drho_fuel * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_drho_fuel
             )
+            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
         else:
             if wingfuel_wt_min < 0.0:
                 wingfuel_wt_min = 0.0
@@ -345,37 +343,29 @@ class BodyTankCalculations(om.ExplicitComponent):
             Int2 = sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
 
             # max_fuel_avail = max_fuel_avail_est * Int1 + max_fuel_avail_new * Int2
-            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (
-                -1 / 110.0
-            )
+            dInt1_dfuel_wt_des = -dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
             dInt1_dreq_fuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
                 * -dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt1_dmax_wingfuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
-                * -dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
+                * -dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) / 110.0
-            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (-1 / 110.0)
+            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
+            dInt1_dOEW = -dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
 
-            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dInt2_dreq_fuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
                 * dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt2_dmax_wingfuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
-                * dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
-            )
-            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * (
-                -1 / 110.0
+                * dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dgross_wt_initial = -dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
+            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dmax_fuel_avail_dfuel_wt_des = (
                 dmax_fuel_avail_est_dfuel_wt_des * Int1
                 + max_fuel_avail_est * dInt1_dfuel_wt_des
-- 
2.43.0


From ec0f598871e15eb80f3e9e18782c349f217c1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 17/75] fix: furnishing mass of small aircraft with cabin
 widths between the two limits

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index dfc3a8c..be6512a 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -126,6 +126,8 @@ def common_compute(
                     CPX = 28.0
                 elif cabin_width > 8.90:
                     CPX = 62.0
+                else:
+                    CPX = CPX_lin
                 furnishing_wt = CPX * PAX + 310.0
         furnishing_wt = np.maximum(furnishing_wt, 30.0)
 
@@ -300,13 +302,17 @@ def common_compute_partials(
                     CPX = 28.0
                 elif cabin_width > 8.90:
                     CPX = 62.0
+                else:
+                    CPX = CPX_lin
                 furnishing_wt = CPX * PAX + 310.0
 
                 dCPX_lin_dcabin_width = 10.516
                 if cabin_width <= 5.667:
                     dCPX_dcabin_width = 0.0
-                if cabin_width > 8.90:
+                elif cabin_width > 8.90:
                     dCPX_dcabin_width = 0.0
+                else:
+                    dCPX_dcabin_width = dCPX_lin_dcabin_width
 
                 dfurnishing_wt_dcabin_width = PAX * dCPX_dcabin_width
                 dfurnishing_wt_dgross_wt_init = 0.0
-- 
2.43.0


From 6cb99a266ae7925a24ef2a67cd299cc0a7e27436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 18/75] fix: smoothed furnishing mass blend and its partials

---
 aviary/subsystems/mass/gasp_based/furnishings.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/furnishings.py b/aviary/subsystems/mass/gasp_based/furnishings.py
index be6512a..504750c 100644
--- a/aviary/subsystems/mass/gasp_based/furnishings.py
+++ b/aviary/subsystems/mass/gasp_based/furnishings.py
@@ -95,7 +95,7 @@ def common_compute(
             )
             furnishing_wt_2 = CPX * PAX + 310.0
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         furnishing_wt = smooth_max(furnishing_wt, 30.0, mu)
     else:
         if gross_wt_init <= 10000.0:
@@ -198,9 +198,8 @@ def common_compute_partials(
 
             dCPX_lin_dcabin_width = 10.516
             dCPX_dcabin_width_2 = (
-                1 * dSigmoidXdx(CPX_lin / 28, 1, 0.01) * -dCPX_lin_dcabin_width
+                28.0 * dSigmoidXdx(CPX_lin / 28, 1, -0.01) / 28 * dCPX_lin_dcabin_width
                 + dCPX_lin_dcabin_width
-                * CPX_lin
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * sigmoidX(CPX_lin / 62, 1, -0.01)
                 + CPX_lin
@@ -212,8 +211,8 @@ def common_compute_partials(
                 * sigmoidX(CPX_lin / 28, 1, 0.01)
                 * dSigmoidXdx(CPX_lin / 62, 1, -0.01)
                 / 62
-                * -dCPX_lin_dcabin_width
-                + 1 * dSigmoidXdx(CPX_lin / 62, 1, 0.01) * dCPX_lin_dcabin_width
+                * dCPX_lin_dcabin_width
+                + 62 * dSigmoidXdx(CPX_lin / 62, 1, 0.01) / 62 * dCPX_lin_dcabin_width
             )
 
             dfurnishing_wt_dcabin_width_2 = PAX * dCPX_dcabin_width_2
@@ -224,7 +223,7 @@ def common_compute_partials(
 
         smoother = sigmoidX(gross_wt_init, 10000.0, 0.01)
         dsmoother_dgross_wt_init = dSigmoidXdx(gross_wt_init, 10000.0, 0.01)
-        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smooth * furnishing_wt_2
+        furnishing_wt = (1 - smoother) * furnishing_wt_1 + smoother * furnishing_wt_2
         dfurnishing_wt_dcabin_width = (
             1 - smoother
         ) * dfurnishing_wt_dcabin_width_1 + smoother * dfurnishing_wt_dcabin_width_2
-- 
2.43.0


From 88fce7ae195c6d73fb5682476b2e4216d59f41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 19/75] fix: smoothed gust and ultimate load factor partials

---
 .../subsystems/mass/gasp_based/design_load.py | 85 +++++++++++++++----
 1 file changed, 69 insertions(+), 16 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 300ec80..11a2269 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -820,9 +820,9 @@ class LoadFactors(om.ExplicitComponent):
         ) / (498.0 * wing_loading)
         ddive_load_factor_dCl_alpha = (
             dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-            + k_load_factor * 50 * min_dive_vel
+            + k_load_factor * 25 * min_dive_vel
         ) / (498.0 * wing_loading)
-        (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
+        ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
         ddive_load_factor_dV9 = 0.0
 
         dgust_load_factor_dwing_loading = dquotient(
@@ -847,13 +847,12 @@ class LoadFactors(om.ExplicitComponent):
         if smooth:
             SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
             SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-            DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
             DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
             gust_load_factor_1 = dive_load_factor * SigG + cruise_load_factor * SigH
             dgust_load_factor_dwing_loading = (
                 ddive_load_factor_dwing_loading * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -862,7 +861,7 @@ class LoadFactors(om.ExplicitComponent):
                 )
                 + dcruise_load_factor_dwing_loading * SigH
                 + cruise_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (cruise_load_factor - dive_load_factor),
                     dive_load_factor,
@@ -873,7 +872,7 @@ class LoadFactors(om.ExplicitComponent):
             dgust_load_factor_ddensity_ratio = (
                 ddive_load_factor_ddensity_ratio * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -949,6 +948,25 @@ class LoadFactors(om.ExplicitComponent):
                     ddive_load_factor_dV9,
                 )
             )
+            dgust_load_factor_dmin_dive_vel = (
+                ddive_load_factor_dmin_dive_vel * SigG
+                + dive_load_factor
+                * DSigH
+                * dquotient(
+                    (dive_load_factor - cruise_load_factor),
+                    dive_load_factor,
+                    ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+                + cruise_load_factor
+                * DSigH
+                * dquotient(
+                    (cruise_load_factor - dive_load_factor),
+                    dive_load_factor,
+                    -ddive_load_factor_dmin_dive_vel,
+                    ddive_load_factor_dmin_dive_vel,
+                )
+            )
             gust_load_factor = gust_load_factor_1
         else:
             if cruise_load_factor > dive_load_factor:  # note: this creates a discontinuity
@@ -1082,7 +1100,25 @@ class LoadFactors(om.ExplicitComponent):
                     dgust_load_factor_dV9,
                 )
             )
-            dULF_dmin_dive_vel = 0.0
+            dULF_dmin_dive_vel = 1.5 * (
+                dgust_load_factor_dmin_dive_vel * SigK
+                + gust_load_factor
+                * DSigL
+                * dquotient(
+                    (gust_load_factor - max_maneuver_factor),
+                    gust_load_factor,
+                    dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+                + max_maneuver_factor
+                * DSigL
+                * dquotient(
+                    (max_maneuver_factor - gust_load_factor),
+                    gust_load_factor,
+                    -dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+            )
         else:
             if gust_load_factor > max_maneuver_factor:  # note: this creates a discontinuity
                 dULF_dmax_maneuver_factor = 0.0
@@ -1804,7 +1840,7 @@ class BWBLoadFactors(om.ExplicitComponent):
             ) / (498.0 * wing_loading)
             ddive_load_factor_dCl_alpha = (
                 dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-                + k_load_factor * 50 * min_dive_vel
+                + k_load_factor * 25 * min_dive_vel
             ) / (498.0 * wing_loading)
             ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (
                 498.0 * wing_loading
@@ -1815,13 +1851,12 @@ class BWBLoadFactors(om.ExplicitComponent):
             if smooth:
                 SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
                 SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-                DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
                 DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
                 gust_load_factor = dive_load_factor * SigG + cruise_load_factor * SigH
                 dgust_load_factor_dgross_mass = (
                     ddive_load_factor_dgross_mass * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1830,7 +1865,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dgross_mass * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1841,7 +1876,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_dexp_wing_areas = (
                     ddive_load_factor_dexp_wing_areas * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1850,7 +1885,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dexp_wing_areas * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1861,7 +1896,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_ddensity_ratio = (
                     ddive_load_factor_ddensity_ratio * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1937,7 +1972,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                         ddive_load_factor_dV9,
                     )
                 )
-                dgust_loading_dmin_dive_vel = (
+                dgust_load_factor_dmin_dive_vel = (
                     ddive_load_factor_dmin_dive_vel * SigG
                     + dive_load_factor
                     * DSigH
@@ -2136,7 +2171,25 @@ class BWBLoadFactors(om.ExplicitComponent):
                         dgust_load_factor_dV9,
                     )
                 )
-                dULF_dmin_dive_vel = 0.0
+                dULF_dmin_dive_vel = 1.5 * (
+                    dgust_load_factor_dmin_dive_vel * SigK
+                    + gust_load_factor
+                    * DSigL
+                    * dquotient(
+                        (gust_load_factor - max_maneuver_factor),
+                        gust_load_factor,
+                        dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                    + max_maneuver_factor
+                    * DSigL
+                    * dquotient(
+                        (max_maneuver_factor - gust_load_factor),
+                        gust_load_factor,
+                        -dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                )
             else:
                 if gust_load_factor > max_maneuver_factor:
                     # ULF = 1.5 * gust_load_factor
-- 
2.43.0


From ac5838443050d2f61c789833b4cd329cc7544591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 20/75] fix: oxygen system partial was unassigned for light
 aircraft

---
 aviary/subsystems/mass/gasp_based/oxygen_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/oxygen_system.py b/aviary/subsystems/mass/gasp_based/oxygen_system.py
index 347d9bc..fdab832 100644
--- a/aviary/subsystems/mass/gasp_based/oxygen_system.py
+++ b/aviary/subsystems/mass/gasp_based/oxygen_system.py
@@ -61,8 +61,7 @@ class OxygenSystemMass(om.ExplicitComponent):
                     3 * dSigmoidXdx(gross_wt_initial / 3000, 1, 0.01) * 1 / 3000
                 )
             else:
-                if gross_wt_initial > 3000.0:
-                    d_aux_wt_dgross_wt_initial = 0.0
+                d_aux_wt_dgross_wt_initial = 0.0
         else:
             d_aux_wt_dgross_wt_initial = 0.0
 
-- 
2.43.0


From 97e562ca1b983586eb6a198422e8055253798c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 21/75] fix: passenger service mass partial between 10 and 19
 passengers

---
 .../subsystems/mass/gasp_based/passenger_service.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/passenger_service.py b/aviary/subsystems/mass/gasp_based/passenger_service.py
index 82d0a38..6ee6a89 100644
--- a/aviary/subsystems/mass/gasp_based/passenger_service.py
+++ b/aviary/subsystems/mass/gasp_based/passenger_service.py
@@ -70,12 +70,18 @@ class PassengerServiceMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_pax = self.options[Aircraft.CrewPayload.Design.NUM_PASSENGERS]
 
-        if num_pax > 19.0:
+        if num_pax > 9.0:
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
             ] = num_pax
+        else:
+            J[
+                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
+                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
+            ] = 0
 
+        if num_pax > 19.0:
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
@@ -87,11 +93,6 @@ class PassengerServiceMass(om.ExplicitComponent):
             ] = num_pax
 
         else:
-            J[
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
-            ] = 0
-
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
-- 
2.43.0


From 1e9bd732b08e86eb10bc48fc5e917e1f3310a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 22/75] fix: total landing gear mass partials

---
 aviary/subsystems/mass/gasp_based/landing.py | 34 +++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..3477d5d 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -66,6 +66,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         self.declare_partials(
             Aircraft.LandingGear.TOTAL_MASS,
             [
+                Aircraft.Wing.VERTICAL_MOUNT_LOCATION,
                 Aircraft.LandingGear.MASS_COEFFICIENT,
                 Aircraft.Design.TOUCHDOWN_MASS_MAX,
                 Aircraft.Nacelle.CLEARANCE_RATIO,
@@ -114,6 +115,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         wing_loc = inputs[Aircraft.Wing.VERTICAL_MOUNT_LOCATION]
         clearance_ratio = inputs[Aircraft.Nacelle.CLEARANCE_RATIO]
         nacelle_diam = inputs[Aircraft.Nacelle.AVG_DIAMETER]
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
 
         val = (1.0 + clearance_ratio) * nacelle_diam
         gear_height_temp = KSfunction.compute(val, 50.0)
@@ -140,36 +142,46 @@ class TotalLandingGearMass(om.ExplicitComponent):
         dGH_dND = (
             sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
             + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+            - 6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
+        ) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dCR = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
+        )
+
+        dLGW_dND = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
+        )
+
+        dLGW_dWL = (
+            c_gear_mass
+            * (1.0 - 0.85 * (1.0 + 0.1765 * gear_height / 6.0))
+            * dSigmoidXdx(wing_loc, 0.005, 0.01 / 320.0)
+            * landing_wt
         )
 
-        dLGW_dND = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Wing.VERTICAL_MOUNT_LOCATION] = (
+            CK12 * dLGW_dWL / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From 0460200d949b0129fa0a5f950b53c646bc11001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 23/75] fix: cruise distance depends on the initial distance at
 every node

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..5635942 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,6 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
             val=1.0,
         )
 
-- 
2.43.0


From b89ff2365c1fcfb61cf20d61bbdefbb4798c369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 24/75] fix: approximate rate of change of true airspeed for
 equivalent airspeed and Mach inputs

---
 .../ode/unsteady_solved_flight_conditions.py  | 36 +++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..6ab9e2a 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -325,8 +333,8 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             drho_dt_approx = drho_dh * tas * sgam
             deas_dt_approx = deas_dr * tas * cgam
             outputs['dTAS_dt_approx'] = (
-                deas_dt_approx * (rho_sl / rho) ** 1.5
-                - 0.5 * eas * drho_dt_approx * rho_sl**1.5 / rho_sl**2.5
+                deas_dt_approx / sqrt_rho_rho_sl
+                - 0.5 * eas * drho_dt_approx * rho_sl**0.5 / rho**1.5
             )
 
         else:
@@ -389,15 +397,23 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.MACH, Dynamic.Atmosphere.SPEED_OF_SOUND] = -TAS / sos**2
             partials[Dynamic.Mission.VELOCITY, Dynamic.Atmosphere.DENSITY] = dTAS_dRho
             partials[Dynamic.Mission.VELOCITY, 'EAS'] = dTAS_dEAS
-            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * (rho_sl / rho) ** 1.5
+            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam / sqrt_rho_rho_sl
             partials['dTAS_dt_approx', 'drho_dh'] = (
-                -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
+                -0.5 * EAS * TAS * sgam * rho_sl**0.5 / rho**1.5
+            )
+            partials['dTAS_dt_approx', 'EAS'] = (
+                inputs['dEAS_dr'] * cgam * rho_sl / rho
+                - EAS * inputs['drho_dh'] * sgam * rho_sl / rho**2
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
+                -inputs['dEAS_dr'] * EAS * cgam * rho_sl / rho**2
+                + EAS**2 * inputs['drho_dh'] * sgam * rho_sl / rho**3
             )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-                    -TAS * sgam * (rho_sl / rho) ** 1.5 * inputs['dEAS_dr']
-                    - 0.5 * EAS * TAS * cgam * rho_sl**1.5 / rho_sl**2.5 * inputs['drho_dh']
+                    -TAS * sgam / sqrt_rho_rho_sl * inputs['dEAS_dr']
+                    - 0.5 * EAS * TAS * cgam * rho_sl**0.5 / rho**1.5 * inputs['drho_dh']
                 )
 
         else:
@@ -422,6 +438,12 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2.0 * inputs['dmach_dr'] * TAS * cgam + inputs['dsos_dh'] * mach**2 * sgam
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * sos**2 * cgam + 2.0 * inputs['dsos_dh'] * TAS * sgam
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From 6c273f56b905583e12defea1cca7614954eb93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 25/75] fix: partial of the speed of sound gradient with
 respect to altitude

---
 aviary/subsystems/atmosphere/atmosphere.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..80385b7 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -309,11 +309,12 @@ class AtmosphereComp(om.ExplicitComponent):
 
         # similar to method in dymos
         coeffs = self.source_data.akima_dT[idx]
+        dT_dh_table = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
         # dsos_dh = 0.5 * (self._K * T)**(-0.5) * dT_dh * self._K
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
-            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh * self._K)
+            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh_table * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
         )
 
@@ -333,4 +334,4 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh**2
+            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From b1e72b69d47980284e99117ab54c7ccf193baba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 26/75] fix: temperature offset given to the atmosphere group
 was not passed to its component

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 80385b7..1a4bc01 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -47,7 +47,11 @@ class Atmosphere(om.Group):
 
         self.add_subsystem(
             name='standard_atmosphere',
-            subsys=AtmosphereComp(num_nodes=nn, h_def=h_def),
+            subsys=AtmosphereComp(
+                num_nodes=nn,
+                h_def=h_def,
+                delta_T_Celcius=self.options['delta_T_Celcius'],
+            ),
             promotes_inputs=[Dynamic.Mission.ALTITUDE],
             promotes_outputs=['*'],
         )
-- 
2.43.0


From a2a359bf65d1ca19e88187730ff9df6ecf8258de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 27/75] fix: undeclared partials of the drag build-up
 parameters

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..377c230 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -857,6 +857,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Fuselage.FLAT_PLATE_AREA_INCREMENT,
             Aircraft.Wing.TAPER_RATIO,
             Aircraft.Strut.AREA_RATIO,
+            Aircraft.Strut.CHORD,
             Aircraft.Wing.AVERAGE_CHORD,
             Aircraft.HorizontalTail.AVERAGE_CHORD,
             Aircraft.VerticalTail.AVERAGE_CHORD,
@@ -883,7 +884,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.Design.EXCRESCENCE_DRAG_FACTOR,
             Aircraft.Design.PERCENT_EXCRESCENCE_DRAG,
         ]
-        self.declare_partials('SA5', drag_factors, method='cs')
+        self.declare_partials(['SA5', 'SA7'], drag_factors, method='cs')
         self.declare_partials(
             'SA6', [Aircraft.Wing.FORM_FACTOR, Aircraft.Wing.AVERAGE_CHORD], method='cs'
         )
-- 
2.43.0


From 26031bbe1f62b2a734d71a06620f186d2fdc7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 28/75] fix: strut Reynolds number factor is only set at nodes
 with a valid Reynolds number

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 377c230..0b0e156 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -992,7 +992,7 @@ class AeroGeom(om.ExplicitComponent):
         fhtre[good_mask] = (np.log10(reli[good_mask] * htail_chord) / 7) ** -2.6
         include_strut = self.options[Aircraft.Wing.HAS_STRUT]
         if include_strut:
-            fstrtre = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
+            fstrtre[good_mask] = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
 
         # fuselage form drag factor
         # fffus = 1 + 1.5 * (cabin_width / fus_len) ** 1.5 + 7 * (cabin_width / fus_len) ** 3
-- 
2.43.0


From 248984cd6b3cc7e5b17be32fe947f832514bc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 29/75] fix: undeclared partials of the clean drag coefficient
 with respect to the drag factors

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 0b0e156..65825ff 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -1394,6 +1394,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From c492c32d83250513c56df450871ab8dceda9377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 30/75] fix: lift ratio and tailless partials of the induced
 drag factor

---
 .../subsystems/aerodynamics/gasp_based/gaspaero.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 65825ff..4c49fd1 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -616,13 +616,19 @@ class UFac(om.ExplicitComponent):
         bbar = inputs['bbar_alt']
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
+        tailless = False
+
+        if design_type is AircraftTypes.BLENDED_WING_BODY:
+            if bbar < 0.01 * inputs[Aircraft.Wing.SPAN]:
+                bbar = 1.0
+                tailless = True
 
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -634,16 +640,22 @@ class UFac(om.ExplicitComponent):
             - 2 * sigma * lift_ratio / bbar**2
         )
         dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        if tailless:
+            dufac_dbbar = np.zeros_like(dufac_dbbar)
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
                 ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
-- 
2.43.0


From 72d7c132ba6a66398c78ec9ad06512d8f9e49a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 31/75] fix: pre-mission propulsion group for more than two
 engine types

---
 aviary/subsystems/propulsion/propulsion_premission.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 808196d..14c2992 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -64,7 +64,11 @@ class PropulsionPreMission(om.Group):
         if num_engine_type > 1:
             # Add an empty mux comp, which will be customized to handle all required outputs in
             # configure()
-            self.add_subsystem('pre_mission_mux', subsys=om.MuxComp(), promotes_outputs=['*'])
+            self.add_subsystem(
+                'pre_mission_mux',
+                subsys=om.MuxComp(vec_size=num_engine_type),
+                promotes_outputs=['*'],
+            )
 
         self.add_subsystem(
             'propulsion_sum',
-- 
2.43.0


From b556effc7e2e411cadd28c065af6f770188d8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 32/75] fix: sign of the horizontal acceleration in the landing
 flare

---
 .../mission/energy_state/ode/landing_eom.py   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/energy_state/ode/landing_eom.py b/aviary/mission/energy_state/ode/landing_eom.py
index 97a037c..bde7e64 100644
--- a/aviary/mission/energy_state/ode/landing_eom.py
+++ b/aviary/mission/energy_state/ode/landing_eom.py
@@ -55,7 +55,7 @@ class FlareEOM(om.Group):
 
         self.add_subsystem(
             'accelerations',
-            Accelerations(num_nodes=nn),
+            FlareAccelerations(num_nodes=nn),
             promotes_inputs=inputs,
             promotes_outputs=outputs,
         )
@@ -127,6 +127,25 @@ class FlareEOM(om.Group):
         )
 
 
+class FlareAccelerations(Accelerations):
+    """
+    Define a component for calculating accelerations in the direction of flight from
+    flare forces. The horizontal force of the flare is positive when it decelerates the
+    aircraft (see FlareSumForces).
+    """
+
+    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
+        super().compute(inputs, outputs, discrete_inputs, discrete_outputs)
+
+        outputs['acceleration_horizontal'] *= -1.0
+
+    def compute_partials(self, inputs, J, discrete_inputs=None):
+        super().compute_partials(inputs, J, discrete_inputs)
+
+        J['acceleration_horizontal', Dynamic.Vehicle.MASS] *= -1.0
+        J['acceleration_horizontal', 'forces_horizontal'] *= -1.0
+
+
 class GlideSlopeForces(om.ExplicitComponent):
     """Define a component for calculating forces for evaluation of glide slope criteria."""
 
-- 
2.43.0


From 81a56de7c734278e3c89e9067eac2f88710c0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 33/75] fix: sigmoid of a scalar with a width above one,
 sigmoid slope of a scalar, slope with one centre per element

---
 aviary/utils/math.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..b76a90b 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -46,7 +46,7 @@ def sigmoidX(x, x0, mu=1.0):
         else:
             dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (x - x0).real / mu > -320:
             y = 1 / (1 + np.exp(-(x - x0) / mu))
     if dtype == float:
         y = y.real
@@ -85,12 +85,19 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2 = np.zeros(n_size, dtype=dtype)
         # avoid overflow in squared term, underflow seems to be ok
         calc_idx = np.where((x.real - x0) / mu > -320)
-        term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
+        if isinstance(x0, np.ndarray) and len(x0) == n_size:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0[calc_idx]) / mu)
+        else:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
+        if isinstance(x, float):
+            dtype = float
+        else:
+            dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (x - x0).real / mu > -320:
             term = np.exp(-(x - x0) / mu)
             term2 = (1 + term) * (1 + term)
             y = term / mu / term2
-- 
2.43.0


From 8f35481a574a42a1631fb2d4432497e2f5a5e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 34/75] fix: smooth minimum and its slope for arguments that
 overflow the exponential

---
 aviary/utils/math.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index b76a90b..ac4fe55 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -118,7 +118,11 @@ def smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of min(x, b).
     """
-    sum_log_exp = np.log(np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b)))
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    # subtract the larger exponent to avoid overflow and underflow
+    m = np.maximum(mu_x, mu_b)
+    sum_log_exp = m + np.log(np.exp(mu_x - m) + np.exp(mu_b - m))
     rv = -(1 / mu) * sum_log_exp
     return rv
 
@@ -135,9 +139,13 @@ def d_smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of derivative of min(x, b).
     """
-    d_sum_log_exp = np.exp(np.multiply(-mu, x)) / (
-        np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b))
-    )
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    # subtract the larger exponent to avoid overflow and underflow
+    m = np.maximum(mu_x, mu_b)
+    numerator = np.exp(mu_x - m)
+    denominator = numerator + np.exp(mu_b - m)
+    d_sum_log_exp = numerator / denominator
     return d_sum_log_exp
 
 
-- 
2.43.0


From fbfbfda4deb79824fe9471dc54404afce51e68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 35/75] fix: BWBWingVolume smoothing width mistook the sigmoid
 convention and never reached either plateau

---
 aviary/subsystems/geometry/gasp_based/wing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 1b30d6d..7de81b8 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -490,7 +490,7 @@ class BWBWingVolume(om.ExplicitComponent):
     def initialize(self):
         add_aviary_option(self, Aircraft.Wing.HAS_FOLD)
         add_aviary_option(self, Aircraft.Design.SMOOTH_MASS_DISCONTINUITIES)
-        self.options.declare('mu', default=10.0, types=float)
+        self.options.declare('mu', default=0.01 / 320.0, types=float)
         add_aviary_option(self, Settings.VERBOSITY)
 
     def setup(self):
@@ -559,7 +559,9 @@ class BWBWingVolume(om.ExplicitComponent):
         center_chort = inputs[Aircraft.Wing.CENTER_CHORD]
 
         if smooth:
-            WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
+            # smooth transition for WID_GRX from 0 to 6 ft when gear_location varies
+            # between 0 and 1% of span
+            WID_GRX = 6 * sigmoidX(loc_main_gear, 0.005, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6
@@ -611,8 +613,8 @@ class BWBWingVolume(om.ExplicitComponent):
         center_chort = inputs[Aircraft.Wing.CENTER_CHORD]
 
         if smooth:
-            WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
+            WID_GRX = 6 * sigmoidX(loc_main_gear, 0.005, mu)
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.005, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
-- 
2.43.0


From 4dfa7c8cd6cfc83d49f2d7e674b105414ac04510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 36/75] fix: Breguet cruise time accumulates each segment at
 its own speed, not the whole range at the last one

---
 .../mission/two_dof/ode/breguet_cruise_eom.py | 77 ++++++++++---------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/aviary/mission/two_dof/ode/breguet_cruise_eom.py b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
index 5c390ab..565fa5a 100644
--- a/aviary/mission/two_dof/ode/breguet_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
@@ -144,7 +144,7 @@ class RangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -219,30 +219,31 @@ class RangeComp(om.ExplicitComponent):
 
         # Partials of cruise_time
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
+        # The time across each two-node pair is the change in range divided by the average
+        # airspeed of that pair, and it accumulates just like the range.
 
-        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', 'mass'][1:] = J['cruise_range', 'mass'][1:] / vx_m[self._tril_rs[1:] - 1]
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dFF1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dFF2 / vx_m)
 
-        drange_cruise = bregA * star
+        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        f = np.cumsum(drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dW1 * GRAV_ENGLISH_LBM / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dW2 * GRAV_ENGLISH_LBM / vx_m)
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        J['cruise_time', 'mass'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        dtime_dvx_m = -(bregA * star) / vx_m**2
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m + 0.5 * dtime_dvx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m + 0.5 * dtime_dvx_m)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
 
 class ElectricRangeComp(om.ExplicitComponent):
@@ -382,7 +383,7 @@ class ElectricRangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(e_drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -446,28 +447,28 @@ class ElectricRangeComp(om.ExplicitComponent):
 
         # Partials of cruise_time
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
+        # The time across each two-node pair is the change in range divided by the average
+        # airspeed of that pair, and it accumulates just like the range.
 
-        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:] = (
-            J['cruise_range', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dP1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dP2 / vx_m)
+
+        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        f = np.cumsum(e_drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dE1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dE2 / vx_m)
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        dtime_dvx_m = -e_drange_cruise / vx_m**2
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m + 0.5 * dtime_dvx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m + 0.5 * dtime_dvx_m)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
-- 
2.43.0


From 4fe3681ffbdbdb124419499a9163e42209e6ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 37/75] fix: a copy of NamedValues has its own values, not the
 original's mapping

---
 aviary/utils/named_values.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..ff163f2 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -97,6 +97,11 @@ class NamedValues(Collection):
         """
         return copy.copy(self)
 
+    def __copy__(self):
+        new = type(self)()
+        new._mapping = self._mapping.copy()
+        return new
+
     def deepcopy(self):
         """
         Return a deep copy of the instance of this class.
-- 
2.43.0


From ad57e141a96526648096bf87ebddf26c743f1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 38/75] fix: NamedValues.update accepts any NamedValues, as
 documented

---
 aviary/utils/named_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index ff163f2..340e019 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -233,7 +233,7 @@ class NamedValues(Collection):
 
         set_val = self.set_val
 
-        if isinstance(other, type(self)):
+        if isinstance(other, NamedValues):
             # NamedValues
             other = other._mapping
 
-- 
2.43.0


From 6f72393fe1cf39a1d56b703f458dc629692d4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 39/75] fix: unit conversion of an integer array does not
 truncate the converted values

---
 aviary/utils/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..8678aaf 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -50,7 +50,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
     if value is None:
         return None
 
-    if isiterable(value):
+    if isinstance(value, np.ndarray) and value.dtype != object:
+        # converted as a whole, assigning by index would truncate in an integer array
+        value = convert_units(value, units, new_units)
+    elif isiterable(value):
         # tuples are immutable, so we have to convert to list to modify each index
         if isinstance(value, tuple):
             istuple = True
-- 
2.43.0


From 66dc38a85a9e3ab5176370e4bb157c149c04a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 40/75] fix: unit conversion of nested containers

---
 aviary/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 8678aaf..bc643c6 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -62,9 +62,8 @@ def wrapped_convert_units(val_unit_tuple, new_units):
             istuple = False
 
         for i, item in enumerate(value):
-            # Any entry may be none.
-            if value[i] is not None:
-                value[i] = convert_units(item, units, new_units)
+            # Any entry may be none, or another iterable.
+            value[i] = wrapped_convert_units((item, units), new_units)
 
         if istuple:
             value = tuple(value)
-- 
2.43.0


From db4c1f9c671e6960b8571ca84caa00a2f59cf698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 41/75] fix: a list of enumeration names keeps all its entries

---
 aviary/utils/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index bc643c6..71ed5a1 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -125,13 +125,17 @@ def enum_setter(opt_meta, value):
             elif isinstance(val, str):
                 try:
                     # see if str maps to ENUM value
-                    return enum_class(val)
+                    values.append(enum_class(val))
                 except ValueError:
                     # str instead maps to ENUM name
-                    return getattr(enum_class, val.upper())
+                    values.append(getattr(enum_class, val.upper()))
             else:
                 break
         else:
+            # a single string in an iterable is the option itself
+            if len(values) == 1 and isinstance(value_iter[0], str):
+                return values[0]
+
             # maintain the same type of iterable
             if isinstance(value, np.ndarray):
                 values = np.array(values)
-- 
2.43.0


From 6beb23855dc412328195b4d9d823e6931077c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 42/75] fix: Battery.VOLUME is a volume (ft**3, not ft*3)

---
 aviary/variable_info/variable_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index a170848..b38223d 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -303,7 +303,7 @@ add_meta_data(
     Aircraft.Battery.VOLUME,
     meta_data=_MetaData,
     historical_name={'GASP': None, 'FLOPS': None},
-    units='ft*3',
+    units='ft**3',
     desc='total volume of the battery pack',
     default_value=0.0,
 )
-- 
2.43.0


From 59afbd379ed9bc1072ef9d7259d3aef459fb7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 43/75] fix: design passenger total is recognised as given by
 its own variable

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..5b4a1db 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -256,7 +256,7 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
         if key in aviary_options:
             # mark that the user provided any information on design passenger count
             design_pax_provided = True
-            if key == Aircraft.CrewPayload.NUM_PASSENGERS:
+            if key == Aircraft.CrewPayload.Design.NUM_PASSENGERS:
                 design_pax_sum_provided = True
         else:
             # default all non-provided passenger info to 0
-- 
2.43.0


From 8963896cdcd0f16f09b7ed10799cc9c76d123866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 44/75] fix: the cargo mass warning reports the value that was
 given

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 5b4a1db..1b32e99 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -420,7 +420,6 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                 if des_cargo is not None:
                     if problem_type == ProblemType.SIZING and cargo != des_cargo:
                         # user has set all three check, if self consistent
-                        cargo = des_cargo
                         if verbosity >= Verbosity.BRIEF:  # BRIEF, VERBOSE, DEBUG
                             warnings.warn(
                                 f'Aircraft.CrewPayload.CARGO_MASS ({cargo} lbm) does not equal '
@@ -428,6 +427,7 @@ def preprocess_crewpayload(aviary_options: AviaryValues, meta_data=CoreMetaData,
                                 'SIZING mission. Setting as-flown CARGO_MASS equal to '
                                 f'Design.CARGO_MASS ({des_cargo} lbm)'
                             )
+                        cargo = des_cargo
                 else:
                     # user has set cargo & max: assume des = max
                     des_cargo = max_cargo
-- 
2.43.0


From 73cfcdbd15bddc59358589878ab9f33341c818ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 45/75] fix: a single engine without a stated mount location is
 assigned one

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 1b32e99..87ecce0 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -937,7 +937,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            elif num_unspecified_engines == 1:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From c0b9fa681168ab01ee75a5abbaea22a48680ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 46/75] fix: engine vectors given for the whole aircraft are
 not repeated per engine type

---
 aviary/utils/preprocessors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 87ecce0..b82ccab 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -809,6 +809,7 @@ def preprocess_propulsion(
             # vec is where the vectorized engine data is stored - always a list right
             # now, converted to other types like np array later
             vec = []
+            shared_data_added = False
 
             # Vectorize variable "var" from available sources #
 
@@ -838,7 +839,10 @@ def preprocess_propulsion(
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
                             if multidimensional:
-                                vec.extend(aviary_val)
+                                # the vector already covers all engine types, add it only once
+                                if not shared_data_added:
+                                    vec.extend(aviary_val)
+                                    shared_data_added = True
                             else:
                                 try:
                                     # check variable exists at this index - if not, use default
-- 
2.43.0


From ab0d70838bbdf15997118c7818598f83ca8d7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 47/75] fix: the stored verbosity is used when none is passed

---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index b82ccab..aba44eb 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -755,7 +755,7 @@ def preprocess_propulsion(
         # compatibility with being passed int for verbosity
         verbosity = Verbosity(verbosity)
     else:
-        if verbosity in aviary_options:
+        if Settings.VERBOSITY in aviary_options:
             verbosity = aviary_options.get_val(Settings.VERBOSITY)
         else:
             verbosity = Verbosity.BRIEF
-- 
2.43.0


From 6e6a7125b8fbf8e84f964b7c6c30b76a355ec3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 48/75] fix: engine decks whose net thrust agrees with gross
 thrust less ram drag are accepted, others refused

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..2c8d20c 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -468,7 +468,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
-- 
2.43.0


From 637a831a6f1ecd6fd81bacd8e8c94510fc122a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 49/75] fix: corrected shaft power is dropped whatever the
 verbosity

---
 aviary/subsystems/propulsion/engine_deck.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 2c8d20c..7638ce6 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -510,16 +510,13 @@ class EngineDeck(EngineModel):
         # consistency, as that requires information not available during setup (freestream air temp
         # and pressure). Instead, we must trust the source and assume either data set is valid and
         # can be used.
-        if (
-            SHAFT_POWER in engine_variables
-            and SHAFT_POWER_CORRECTED in engine_variables
-            and self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF
-        ):
-            warnings.warn(
-                'Both corrected and uncorrected shaft horsepower are present in '
-                f'{self.error_message}. The two cannot be validated for consistency, and only '
-                'uncorrected shaft power will be used.'
-            )
+        if SHAFT_POWER in engine_variables and SHAFT_POWER_CORRECTED in engine_variables:
+            if self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF:
+                warnings.warn(
+                    'Both corrected and uncorrected shaft horsepower are present in '
+                    f'{self.error_message}. The two cannot be validated for consistency, and only '
+                    'uncorrected shaft power will be used.'
+                )
             engine_variables.pop(SHAFT_POWER_CORRECTED)
             self.data.pop(SHAFT_POWER_CORRECTED)
 
-- 
2.43.0


From 895e169be8bbf08ea752cec5f318888841107bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 50/75] fix: engine decks that lack a required variable are
 refused

---
 aviary/subsystems/propulsion/engine_deck.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 7638ce6..1cada1f 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -525,16 +525,13 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
+            missing_variables = {
+                var.name for var in self.required_variables if var not in engine_variables
+            }
 
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
-- 
2.43.0


From 6ff354e0bbdc08731b84d21c5c5521d85e43af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 51/75] fix: negative thrust can be ignored in decks without
 every optional variable

---
 aviary/subsystems/propulsion/engine_deck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 1cada1f..a03fb5f 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -537,7 +537,9 @@ class EngineDeck(EngineModel):
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
             keep_idx = np.where(data[THRUST] >= 0)
             for key in data:
-                data[key] = data[key][keep_idx]
+                # unused variables have no data points to remove
+                if len(data[key]):
+                    data[key] = data[key][keep_idx]
 
         self.model_length = len(self.data[ALTITUDE])
 
-- 
2.43.0


From 13cd26b149ee2acf1e95f1d6a7039a5afdd27fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 52/75] fix: engine deck counts all points of a flight
 condition, a Mach number's last altitudes and the deck's last condition

---
 aviary/subsystems/propulsion/engine_deck.py | 23 +++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index a03fb5f..ff56bc5 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -646,6 +646,9 @@ class EngineDeck(EngineModel):
                 if skip:
                     continue
 
+                # last (highest throttle) data point at this Mach, alt index combination
+                max_idx = data_indices[M, A] - 1
+
                 # define known data for idle point (independent variables)
                 idle_points[MACH] = np.append(
                     idle_points[MACH], [packed_data[MACH][M, A, 0]] * num_points
@@ -675,7 +678,7 @@ class EngineDeck(EngineModel):
                 if data_indices[M, A] == 1:
                     # Find the point closest to hybrid throttle idle (0) if hybrid throttle is present
                     if self.use_hybrid_throttle:
-                        hybrid_throttle_data = packed_data[HYBRID_THROTTLE][M, A]
+                        hybrid_throttle_data = packed_data[HYBRID_THROTTLE][M, A, : max_idx + 1]
                         # Find index of point closest to hybrid throttle idle (0)
                         idle_idx = np.argmin(np.abs(hybrid_throttle_data))
                     else:
@@ -710,9 +713,7 @@ class EngineDeck(EngineModel):
 
                 # calculate idle thrust, shaft powers as a percentage of max thrust at Mach, alt point
                 for var in direct_calc_vars:
-                    idle_calc_value = (
-                        packed_data[var][M, A, data_indices[M, A] - 1] * idle_thrust_fract
-                    )
+                    idle_calc_value = packed_data[var][M, A, max_idx] * idle_thrust_fract
 
                     # add this point to idle_points
                     idle_points[var] = np.append(idle_points[var], [idle_calc_value] * num_points)
@@ -1487,7 +1488,7 @@ class EngineDeck(EngineModel):
 
                 if not self.global_throttle:
                     # normalize throttles for this flight condition from 0 to 1
-                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A] + 1])
+                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A]])
                     normalized_throttle = np.append(normalized_throttle, throttle_list)
                     throttle_min = np.append(throttle_min, min(throttle_list))
                     throttle_max = np.append(throttle_max, max(throttle_list))
@@ -1495,7 +1496,7 @@ class EngineDeck(EngineModel):
                 if not self.global_hybrid_throttle and self.use_hybrid_throttle:
                     # normalize hybrid throttles for this flight condition
                     hybrid_throttle_list = _hybrid_throttle_norm(
-                        packed_hybrid_throttle[M, A][: data_indices[M, A] + 1]
+                        packed_hybrid_throttle[M, A][: data_indices[M, A]]
                     )
                     normalized_hybrid_throttle = np.append(
                         normalized_hybrid_throttle, hybrid_throttle_list
@@ -1598,8 +1599,7 @@ class EngineDeck(EngineModel):
                     # skip point if there is no data
                     continue
 
-                # number of data points is index+1
-                for D in range(data_indices[M, A] + 1):
+                for D in range(data_indices[M, A]):
                     for key in self.data:
                         unpacked_data = self.data[key]
                         if idx < len(unpacked_data):
@@ -1643,8 +1643,8 @@ class EngineDeck(EngineModel):
 
             if math.isclose(mach_num, curr_mach, abs_tol=self.mach_tol):
                 if math.isclose(alt, curr_alt, abs_tol=self.alt_tol):
-                    data_indices[mach_count - 1, alt_count - 1] = data_count
                     data_count += 1
+                    data_indices[mach_count - 1, alt_count - 1] = data_count
 
                 else:
                     # new altitude for this Mach number, count it
@@ -1702,9 +1702,10 @@ class EngineDeck(EngineModel):
                 # count data associated with new altitude
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
+        # the last Mach number and altitude are not followed by new ones, count them here
         self.mach_max_count = mach_count
-        self.alt_max_count = max_alt_count
-        self.data_max_count = max_data_count
+        self.alt_max_count = max(max_alt_count, alt_count)
+        self.data_max_count = max(max_data_count, data_count)
         self.data_indices = data_indices.astype(int)
 
 
-- 
2.43.0


From 73b6f1e413544805e2f89d554b7fabdc0ea827b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 53/75] fix: error messages for engine decks given in memory

---
 aviary/subsystems/propulsion/engine_deck.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index ff56bc5..81d3292 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1301,8 +1301,8 @@ class EngineDeck(EngineModel):
             if sls_idx.size == 0:
                 raise UserWarning(
                     'Could not find sea-level static max thrust point for EngineDeck '
-                    f'<{self.name}>. Please review the data file '
-                    f'<{self.get_val(Aircraft.Engine.DATA_FILE)}> or manually specify '
+                    f'<{self.name}>. Please review the data in {self.error_message} or manually '
+                    'specify '
                     'aircraft:engine:reference_sls_thrust in EngineDeck options'
                 )
 
@@ -1654,9 +1654,7 @@ class EngineDeck(EngineModel):
                         if mach_count < 2 and alt_count > 0:
                             raise UserWarning(
                                 'Only one Mach provided for altitude '
-                                f'{altitudes[alt_count]:6.3f} in engine data '
-                                'file '
-                                f'<{self.get_val(Aircraft.Engine.DATA_FILE).name}>'
+                                f'{curr_alt:6.3f} in {self.error_message}'
                             )
 
                     curr_alt = alt
@@ -1678,9 +1676,7 @@ class EngineDeck(EngineModel):
                     if alt_count < 2 and mach_count > 0:
                         raise UserWarning(
                             'Only one altitude provided for Mach number '
-                            f'{mach_numbers[mach_count]:6.3f} in engine data '
-                            'file '
-                            f'<{self.get_val(Aircraft.Engine.DATA_FILE).name}>'
+                            f'{curr_mach:6.3f} in {self.error_message}'
                         )
 
                 # record and count Mach numbers
-- 
2.43.0


From 8d67c33e9e793439ac0f3d570ce0cad02772d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 54/75] fix: the cabin layout counts the engines of all types
 for a center-mounted engine

---
 aviary/subsystems/geometry/flops_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/flops_based/fuselage.py b/aviary/subsystems/geometry/flops_based/fuselage.py
index e984787..45274d0 100644
--- a/aviary/subsystems/geometry/flops_based/fuselage.py
+++ b/aviary/subsystems/geometry/flops_based/fuselage.py
@@ -401,7 +401,7 @@ class DetailedCabinLayout(om.ExplicitComponent):
 
         # Calculate the passenger compartment length
 
-        num_engines = self.options[Aircraft.Engine.NUM_ENGINES][0]
+        num_engines = sum(self.options[Aircraft.Engine.NUM_ENGINES])
         eng_flag = num_engines - 2 * int(num_engines / 2)  # a center mounted engine if 1.
         first_class_len = num_first_class_pax * seat_pitch_first / num_seat_abreast_first
         business_class_len = (
-- 
2.43.0


From f95ad05920a3fe0d96e774601d081de0dd946e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 55/75] fix: buried nacelles of several engine types no longer
 stop the analysis

---
 .../subsystems/geometry/gasp_based/engine.py  | 58 ++++++++++---------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/engine.py b/aviary/subsystems/geometry/gasp_based/engine.py
index c8f94df..f2223eb 100644
--- a/aviary/subsystems/geometry/gasp_based/engine.py
+++ b/aviary/subsystems/geometry/gasp_based/engine.py
@@ -127,36 +127,38 @@ class PercentNotInFuselage(om.ExplicitComponent):
         )
 
     def compute(self, inputs, outputs):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            pct_swn = g1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            pct_swn = g2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        outputs['percent_exposed'] = pct_swn
+        all_x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
+        for i, x in enumerate(all_x):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                pct_swn = 1.0 - np.arccos(2.0 * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                pct_swn = g1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                pct_swn = g2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            outputs['percent_exposed'][i] = pct_swn
 
     def compute_partials(self, inputs, J):
-        x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
-        if x >= epsilon and x <= 1 - epsilon:
-            diff = 0.5 - x
-            d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
-        elif x >= 0.0 and x < epsilon:
-            d_pct_swn = dg1(x)
-        elif x <= 1.0 and x > 1 - epsilon:
-            d_pct_swn = dg2(x)
-        else:
-            raise om.AnalysisError(
-                'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
-            )
-
-        J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE] = d_pct_swn
+        all_x = inputs[Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE]
+        for i, x in enumerate(all_x):
+            if x >= epsilon and x <= 1 - epsilon:
+                diff = 0.5 - x
+                d_pct_swn = -2.0 / np.sqrt(1.0 - 4 * diff * diff) / np.pi
+            elif x >= 0.0 and x < epsilon:
+                d_pct_swn = dg1(x)
+            elif x <= 1.0 and x > 1 - epsilon:
+                d_pct_swn = dg2(x)
+            else:
+                raise om.AnalysisError(
+                    'The parameter Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE is out of range.'
+                )
+
+            J['percent_exposed', Aircraft.Nacelle.PERCENT_DIAM_BURIED_IN_FUSELAGE][i] = d_pct_swn
 
 
 class GASPEngineDiameter(om.ExplicitComponent):
-- 
2.43.0


From 726d298e62f63bfbbc45cf4e525962e1385bec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 56/75] fix: the aft body mass of a blended wing body counts
 the fuselage engines of all types

---
 aviary/subsystems/mass/flops_based/fuselage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/fuselage.py b/aviary/subsystems/mass/flops_based/fuselage.py
index 478b910..1787fcb 100644
--- a/aviary/subsystems/mass/flops_based/fuselage.py
+++ b/aviary/subsystems/mass/flops_based/fuselage.py
@@ -1,3 +1,4 @@
+import numpy as np
 import openmdao.api as om
 
 from aviary.constants import GRAV_ENGLISH_LBM
@@ -244,7 +245,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         verbosity = self.options[Settings.VERBOSITY]
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
@@ -282,7 +283,7 @@ class BWBAftBodyMass(om.ExplicitComponent):
         outputs[Aircraft.Wing.BWB_AFTBODY_MASS] = aftbody_weight_adjusted / GRAV_ENGLISH_LBM
 
     def compute_partials(self, inputs, J):
-        num_fuse_eng = self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES]
+        num_fuse_eng = np.sum(self.options[Aircraft.Engine.NUM_FUSELAGE_ENGINES])
         gross_weight = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         fuse_area = inputs[Aircraft.Fuselage.PLANFORM_AREA]
         cabin_area = inputs[Aircraft.Fuselage.CABIN_AREA]
-- 
2.43.0


From 20240e3162d2fbde45aa113574b8a9a9612cd59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 57/75] fix: a mission with a single reserve phase connects the
 phase's mass to all its targets

---
 aviary/core/aviary_group.py                | 25 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 17 +++++++++------
 aviary/subsystems/subsystem_builder.py     |  2 +-
 3 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..a5b4f80 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1274,16 +1274,21 @@ class AviaryGroup(om.Group):
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
                 for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                    # Different points of the same variable may go to different places.
+                    if not isinstance(variable_data, list):
+                        variable_data = [variable_data]
+
+                    for data in variable_data:
+                        post_mission_variable_names = data['post_mission_name']
+                        src_indices = data.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                            mvn_basename = mission_variable_name.rpartition('.')[-1]
+                            src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..050e8c3 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,21 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
+            # A single reserve phase supplies both values, so the entries for 'mass' are kept in a list.
             post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
-                    'src_indices': [0],
-                }
+                f'mass': [
+                    {
+                        'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
+                        'src_indices': [0],
+                    }
+                ]
             }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
+            post_mission_bus.setdefault(reserve_phases[-1], {f'mass': []})['mass'].append(
+                {
                     'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
                     'src_indices': [-1],
                 }
-            }
+            )
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..dba1269 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -518,7 +518,7 @@ class SubsystemBuilder(ABC):
         -------
         bus_variables : dict
             A dictionary where the keys are the phase name and the values are dictionaries with the keys being the mission variable names to connect from,
-            and values are dictionaries with the following keys:
+            and values are dictionaries, or lists of dictionaries, with the following keys:
             - 'post_mission_name': str or list
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
-- 
2.43.0


From 955aa51ab45198cad003ab8eed7c69fdef8b8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 58/75] fix: the scaling a user gives for an end condition is
 used, and an end value of zero is not used as one

---
 aviary/mission/phase_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index bd14bc2..ee4de6d 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -438,14 +438,14 @@ class PhaseBuilder(ABC):
         if final is not None:
             constraint_ref, _ = options[f'{name}_constraint_ref']
             if constraint_ref is None:
-                # If unspecified, final is a good value for it.
-                constraint_ref = final
+                # If unspecified, final is a good value for it, unless it is zero.
+                constraint_ref = final if final != 0.0 else ref
             self.phase.add_boundary_constraint(
                 target,
                 loc='final',
                 equals=final,
                 units=units,
-                ref=final,
+                ref=constraint_ref,
             )
 
     def add_control(
-- 
2.43.0


From 7b8af6e8d6bd2be0cee68138bdca67f7bd9d26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 59/75] fix: values of zero are not used to scale a control or
 the duration of a phase

---
 aviary/mission/energy_state_problem_configurator.py | 3 ++-
 aviary/mission/phase_builder.py                     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/energy_state_problem_configurator.py b/aviary/mission/energy_state_problem_configurator.py
index 5dd67c7..2093a16 100644
--- a/aviary/mission/energy_state_problem_configurator.py
+++ b/aviary/mission/energy_state_problem_configurator.py
@@ -195,8 +195,9 @@ class EnergyStateProblemConfigurator(ProblemConfiguratorBase):
 
         if duration_ref == 1.0:
             # We have been using the average of the bounds if they exist.
+            # A bound of zero on its own cannot be used to scale the duration.
             lower, upper = duration_bounds
-            if lower is not None or upper is not None:
+            if lower or upper:
                 if lower is None:
                     lower = 0.0
                 if upper is None:
diff --git a/aviary/mission/phase_builder.py b/aviary/mission/phase_builder.py
index ee4de6d..c9d4d35 100644
--- a/aviary/mission/phase_builder.py
+++ b/aviary/mission/phase_builder.py
@@ -481,7 +481,8 @@ class PhaseBuilder(ABC):
 
         if ref == 1.0:
             # This has not been moved from default, so find a good value.
-            candidates = [x for x in (bounds[0], bounds[1], initial, final) if x is not None]
+            # Zero says nothing about the size of a control, and cannot be used to scale it.
+            candidates = [x for x in (bounds[0], bounds[1], initial, final) if x]
             if len(candidates) > 0:
                 ref = np.max(np.abs(np.array(candidates)))
 
-- 
2.43.0


From 2042d039df97e70bf456cc0eff7feda98fbb6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 60/75] fix: a value of zero held at the border of two phases
 counts as held

---
 aviary/core/aviary_group.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index a5b4f80..21eb656 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1042,7 +1042,11 @@ class AviaryGroup(om.Group):
 
                 pin1 = phase_info1.get(f'{var}_final', (None, None))[0]
                 pin2 = phase_info2.get(f'{var}_initial', (None, None))[0]
-                if pin1 and pin2:
+                if var == 'time' and pin2 == 0.0:
+                    # A follow-on phase does not start at time zero.
+                    pin2 = None
+
+                if pin1 is not None and pin2 is not None:
                     # When both ends are pinned, no need to add a duplicate constraint.
                     continue
 
@@ -1059,7 +1063,7 @@ class AviaryGroup(om.Group):
                     # Controls cannot connect directly.
                     connect = False
 
-                elif pin2:
+                elif pin2 is not None:
                     # Pinned front can't take input.
                     connect = False
 
@@ -1114,10 +1118,14 @@ class AviaryGroup(om.Group):
                     key = f'{target}_direct_link'
                 connect = connect_directly and phase_info2.get(key, connect_directly)
 
+                if phase_info2.get(f'{target}_initial', (None, None))[0] is not None:
+                    # Pinned front can't take input.
+                    connect = False
+
                 kwargs = {}
                 if not connect:
                     kwargs = self._find_scaling(
-                        target, phase1, phase_info1, phase2, phase_info2, opt2
+                        target, phase1, phase_info1, phase2, phase_info2, None
                     )
 
                 self.traj.link_phases(
-- 
2.43.0


From 32150094bdcabbc8156a22960fda2f4c537ad99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 61/75] fix: a second analytic phase starts where the first one
 ends, not where it starts

---
 aviary/core/aviary_group.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 21eb656..4ee3449 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1032,6 +1032,11 @@ class AviaryGroup(om.Group):
 
             # Sort because of MPI
             for var in sorted(common):
+                if var in upstream_analytic:
+                    # Both phases are analytic. The start of one is not the end of the other, so
+                    # these are linked below.
+                    continue
+
                 # Controls: True or False, everything else: None
                 opt1 = phase_info1.get(f'{var}_optimize', None)
                 opt2 = phase_info2.get(f'{var}_optimize', None)
@@ -1082,7 +1087,7 @@ class AviaryGroup(om.Group):
             # Sort because of MPI
             for var in sorted(downstream_analytic):
                 source = var.removeprefix('initial_')
-                if source not in vars1:
+                if source not in vars1 and var not in upstream_analytic:
                     continue
 
                 if source == 'time':
@@ -1094,7 +1099,7 @@ class AviaryGroup(om.Group):
                 kwargs = {}
                 if not connect:
                     kwargs = self._find_scaling(
-                        source, phase1, phase_info1, phase2, phase_info2, opt2
+                        source, phase1, phase_info1, phase2, phase_info2, None
                     )
 
                 self.traj.add_linkage_constraint(
-- 
2.43.0


From 76f6210ad58b00a09e2da2de15640ddc5310c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 62/75] fix: the objective that is minimised is the one asked
 for: mass is maximised, hybrid and composite objectives are built from the
 right quantities

---
 aviary/core/aviary_problem.py | 127 +++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 54 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..1558d80 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -692,42 +692,12 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        # This isn't really a fuel objective, it's a hybrid or compound objective
-        self.model.add_subsystem(
-            'fuel_obj',
-            om.ExecComp(
-                'reg_objective = overall_fuel/10000 + ascent_duration/30.',
-                reg_objective={'val': 0.0, 'units': 'unitless'},
-                ascent_duration={'units': 's', 'shape': 1},
-                overall_fuel={'units': 'lbm'},
-            ),
-            promotes_inputs=[
-                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
-                ('overall_fuel', Mission.TOTAL_FUEL_MASS),
-            ],
-            promotes_outputs=[('reg_objective', Mission.Objectives.FUEL)],
-        )
-
-        # TODO: All references to self.model. will need to be updated
-        self.model.add_subsystem(
-            'range_obj',
-            om.ExecComp(
-                'reg_objective = -actual_range/1000 + ascent_duration/30.',
-                reg_objective={'val': 0.0, 'units': 'unitless'},
-                ascent_duration={'units': 's', 'shape': 1},
-                actual_range={'val': self.model.target_range, 'units': 'NM'},
-            ),
-            promotes_inputs=[
-                ('actual_range', Mission.RANGE),
-                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
-            ],
-            promotes_outputs=[('reg_objective', Mission.Objectives.RANGE)],
-        )
+        self._add_standard_objectives(self.model)
 
         # Dictionary for default reference values
         default_ref_values = {
-            'mass': 5e4,
-            'hybrid_objective': 5e4,
+            'mass': -5e4,
+            'hybrid_objective': 1,
             'fuel_burned': 1e4,
             'fuel': 1e4,
         }
@@ -750,8 +720,8 @@ class AviaryProblem(om.Problem):
                 )
 
             elif objective_type == 'hybrid_objective':
-                self._add_hybrid_objective(self.model.mission_info)
-                self.model.add_objective('obj_comp.obj')
+                self._add_hybrid_objective(final_phase_name)
+                self.model.add_objective('obj_comp.obj', ref=ref)
 
             elif objective_type == 'fuel_burned':
                 self.model.add_objective(Mission.FUEL_MASS, ref=ref)
@@ -888,7 +858,7 @@ class AviaryProblem(om.Problem):
         default_model = 'model'
         default_weight = 1.0
         objectives = []
-        for arg in args:
+        for arg in args or (None,):
             if isinstance(arg, tuple) and len(arg) == 3:
                 model, output, weight = arg
                 if model not in self.aviary_groups_dict:
@@ -929,11 +899,11 @@ class AviaryProblem(om.Problem):
                     model, output, weight = default_model, arg, default_weight
 
             # in some cases the users provides no input and we can derive the objectie from the problem type:
-            elif self.model.problem_type is ProblemType.SIZING:
+            elif not args and self.problem_type is ProblemType.SIZING:
                 model, output, weight = default_model, Mission.Objectives.FUEL, default_weight
-            elif self.model.problem_type is ProblemType.OFF_DESIGN_MIN_FUEL:
+            elif not args and self.problem_type is ProblemType.OFF_DESIGN_MIN_FUEL:
                 model, output, weight = default_model, Mission.Objectives.FUEL, default_weight
-            elif self.model.problem_type is ProblemType.OFF_DESIGN_MAX_RANGE:
+            elif not args and self.problem_type is ProblemType.OFF_DESIGN_MAX_RANGE:
                 model, output, weight = default_model, Mission.Objectives.RANGE, default_weight
             else:
                 raise ValueError(
@@ -960,6 +930,7 @@ class AviaryProblem(om.Problem):
 
         # Now checkout the output and see if we have recognizable strings and replace them with the variable meta data name
         objectives_cleaned = []
+        standard_objectives = []
         for model, output, weight in objectives:
             if output == 'fuel_burned':
                 output = Mission.FUEL_MASS
@@ -979,6 +950,12 @@ class AviaryProblem(om.Problem):
                 output = Mission.FINAL_TIME
             elif output == 'range':
                 output = Mission.RANGE  # Unsure if this will work
+            if output in (Mission.Objectives.FUEL, Mission.Objectives.RANGE):
+                # these are not calculated by the model itself
+                group = self.aviary_groups_dict.get(model, self.model)
+                if group not in standard_objectives:
+                    self._add_standard_objectives(group)
+                    standard_objectives.append(group)
             objectives_cleaned.append((model, output, weight))
 
         # Create the calculation string for the ExecComp() and the promotion reference values
@@ -993,9 +970,9 @@ class AviaryProblem(om.Problem):
             obj_input = f'{model}_{output_safe}'
             obj_inputs.append(obj_input)
             weighted_exprs.append(f'{obj_input}*{weight}/{total_weight}')
-            connection_names.append(
-                [f'{model}.{output}', f'composite_function.{model}_{output_safe}']
-            )
+            # outputs of the default model are available at the top of the problem
+            source = f'{model}.{output}' if model in self.aviary_groups_dict else output
+            connection_names.append([source, f'composite_function.{model}_{output_safe}'])
         final_expr = ' + '.join(weighted_exprs)
 
         # weighted_str looks like:  'model1_fuelburn*0.67*0.5 + model1_gross_mass*0.33*0.5 + model2_fuelburn*0.67*0.5 + model2_gross_mass*0.33*0.5'
@@ -1069,26 +1046,30 @@ class AviaryProblem(om.Problem):
         # outputs = ['fuelburn','gross_mass']
         weighted_exprs = []
         connection_names = []
+        obj_inputs = []
         output_weights = [float(weight / sum(output_weights)) for weight in output_weights]
         mission_weights = [float(weight / sum(mission_weights)) for weight in mission_weights]
         for mission, mission_weight in zip(missions, mission_weights):
             for output, output_weight in zip(outputs, output_weights):
-                connection_names.append(
-                    [f'composite_function.{mission}_{output}', f'{mission}.{output}']
-                )
-                weighted_exprs.append(f'{mission}_{output}*{output_weight}*{mission_weight}')
+                obj_input = f'{mission}_{output}'.replace(':', '_')
+                obj_inputs.append(obj_input)
+                connection_names.append([f'composite_function.{obj_input}', f'{mission}.{output}'])
+                weighted_exprs.append(f'{obj_input}*{output_weight}*{mission_weight}')
         final_expr = ' + '.join(weighted_exprs)
         # weighted_str looks like:  'model1.fuelburn*0.67*0.5 + model1.gross_mass*0.33*0.5 + model2.fuelburn*0.67*0.5 + model2.gross_mass*0.33*0.5'
 
         # adding composite execComp to super problem
         self.model.add_subsystem(
             'composite_function',
-            om.ExecComp('composite_objective = ' + final_expr, has_diag_partials=True),
+            om.ExecComp(
+                'composite_objective = ' + final_expr,
+                **{name: {'units_by_conn': True} for name in obj_inputs},
+            ),
             promotes_outputs=['composite_objective'],
         )
         # connect from inside of the models to the composite objective
         for target, source in connection_names:
-            self.model.connect(target, source)
+            self.model.connect(source, target)
         # finally add the objective
         self.model.add_objective('composite_objective', ref=ref)
 
@@ -1946,26 +1927,64 @@ class AviaryProblem(om.Problem):
 
             jsonfile.close()
 
-    def _add_hybrid_objective(self, phase_info):
+    def _add_standard_objectives(self, group):
+        """
+        Add the components that compute the standard fuel and range objectives to a group.
+
+        Parameters
+        ----------
+        group : AviaryGroup
+            Group whose mission the objectives are computed for.
+        """
+        # This isn't really a fuel objective, it's a hybrid or compound objective
+        group.add_subsystem(
+            'fuel_obj',
+            om.ExecComp(
+                'reg_objective = overall_fuel/10000 + ascent_duration/30.',
+                reg_objective={'val': 0.0, 'units': 'unitless'},
+                ascent_duration={'units': 's', 'shape': 1},
+                overall_fuel={'units': 'lbm'},
+            ),
+            promotes_inputs=[
+                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
+                ('overall_fuel', Mission.TOTAL_FUEL_MASS),
+            ],
+            promotes_outputs=[('reg_objective', Mission.Objectives.FUEL)],
+        )
+
+        group.add_subsystem(
+            'range_obj',
+            om.ExecComp(
+                'reg_objective = -actual_range/1000 + ascent_duration/30.',
+                reg_objective={'val': 0.0, 'units': 'unitless'},
+                ascent_duration={'units': 's', 'shape': 1},
+                actual_range={'val': group.target_range, 'units': 'NM'},
+            ),
+            promotes_inputs=[
+                ('actual_range', Mission.RANGE),
+                ('ascent_duration', Mission.Takeoff.ASCENT_DURATION),
+            ],
+            promotes_outputs=[('reg_objective', Mission.Objectives.RANGE)],
+        )
+
+    def _add_hybrid_objective(self, final_phase_name):
         """
         Add a hybrid objective that combines final mass and final time.
 
         Parameters
         ----------
-        phase_info : dict
-            Dictionary of mission phase information, keyed by phase name.
+        final_phase_name : str
+            Name of the last phase of the main mission.
         """
-        phases = list(phase_info.keys())
         takeoff_mass = self.model.aviary_inputs.get_val(Aircraft.Design.GROSS_MASS, units='lbm')
 
         obj_comp = om.ExecComp(
-            f'obj = final_mass / {takeoff_mass} + final_time / 5.',
+            f'obj = -final_mass / {takeoff_mass} + final_time / 5.',
             final_mass={'units': 'lbm'},
             final_time={'units': 'h'},
         )
         self.model.add_subsystem('obj_comp', obj_comp)
 
-        final_phase_name = phases[-1]
         self.model.connect(
             f'traj.{final_phase_name}.timeseries.mass',
             'obj_comp.final_mass',
-- 
2.43.0


From a4126cb7ce32c51ba151884498551336502579bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 63/75] fix: an off-design mission flies the aircraft it is
 derived from, and leaves the original mission unchanged

---
 aviary/core/aviary_problem.py | 113 ++++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 33 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 1558d80..d377caf 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1463,13 +1463,19 @@ class AviaryProblem(om.Problem):
 
         if phase_info is None:
             # model phase_info only contains mission information, recreate the whole thing here
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = dict(self.model.mission_info)
+            phase_info['pre_mission'] = self.model.pre_mission_info
+            phase_info['post_mission'] = self.model.post_mission_info
+        # the description of the original mission must not change
+        phase_info = deepcopy(phase_info)
 
         # update passenger count and cargo masses
         mass_method = inputs.get_val(Settings.MASS_METHOD)
 
+        # If only the total is given, don't inherit the seat classes of the sizing mission
+        if num_pax is not None and (num_economy, num_business, num_first_class) == (None,) * 3:
+            num_economy = num_business = num_first_class = 0
+
         # Sanity check passenger counts - cover specific edge case that preprocessors won't catch
         # Since we inherit mission pax count from sizing mission, we need to overwrite it
         if (
@@ -1522,7 +1528,17 @@ class AviaryProblem(om.Problem):
             )
 
         # reset the AviaryProblem to run the new mission
-        off_design_prob.load_inputs(inputs, phase_info, verbosity=verbosity)
+        off_design_prob.load_inputs(
+            inputs,
+            phase_info,
+            problem_configurator=problem_configurator or type(self.model.configurator),
+            meta_data=self.meta_data,
+            verbosity=verbosity,
+        )
+        # the aircraft keeps its engines and external subsystems
+        off_design_prob.load_external_subsystems(
+            [*self.model.external_subsystems, *self.model.engine_models], verbosity=verbosity
+        )
 
         # Update inputs that are specific to problem type
         # Some OFF_DESIGN_MIN_FUEL problem changes had to happen before load_inputs, all OFF_DESIGN_MAX_RANGE problem
@@ -1589,6 +1605,9 @@ class AviaryProblem(om.Problem):
                 control_var = Aircraft.CrewPayload.CARGO_MASS
                 val = cargo_mass
                 tol = 1.05
+                if val is None or val == 0:
+                    val = self.get_val(Aircraft.Design.GROSS_MASS)
+                    tol = 0.05
             # FLOPS cargo mass is an output, not valid for control variable. Pick control var.
             else:
                 # See if misc_cargo is being used, float that as a backup
@@ -1680,12 +1699,12 @@ class AviaryProblem(om.Problem):
         equations_of_motion = self.model.aviary_inputs.get_val(Settings.EQUATIONS_OF_MOTION)
         if equations_of_motion is EquationsOfMotion.ENERGY_STATE:
             # make a copy of the phase_info to avoid modifying the original.
-            phase_info = self.model.mission_info.copy()
-            phase_info['pre_mission'] = self.model.pre_mission_info.copy()
-            phase_info['post_mission'] = self.model.post_mission_info.copy()
+            phase_info = deepcopy(self.model.mission_info)
+            phase_info['pre_mission'] = deepcopy(self.model.pre_mission_info)
+            phase_info['post_mission'] = deepcopy(self.model.post_mission_info)
             # This checks if the 'cruise' phase exists, then automatically extends duration bounds
             # of the cruise stage to allow for the longer off design missions.
-            if phase_info['cruise']:
+            if 'cruise' in phase_info:
                 min_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][0]
                 max_duration = phase_info['cruise']['user_options']['time_duration_bounds'][0][1]
                 cruise_units = phase_info['cruise']['user_options']['time_duration_bounds'][1]
@@ -1731,26 +1750,54 @@ class AviaryProblem(om.Problem):
                 payload_frac = max_fuel_pyld_total_payload / max_payload
 
                 # Calculates Different payload quantities
-                max_fuel_pyld_wing_cargo = (
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.WING_CARGO, 'lbm')
-                    * payload_frac
-                )
-                max_fuel_pyld_misc_cargo = (
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.MISC_CARGO, 'lbm')
-                    * payload_frac
-                )
-                max_fuel_pyld_num_first = int(
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.Design.NUM_FIRST_CLASS)
-                    * payload_frac
-                )
-                max_fuel_pyld_num_bus = int(
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.Design.NUM_BUSINESS_CLASS)
-                    * payload_frac
-                )
-                max_fuel_pyld_num_economy = int(
-                    self.model.aviary_inputs.get_val(Aircraft.CrewPayload.Design.NUM_ECONOMY_CLASS)
-                    * payload_frac
-                )
+                if mass_method is GASP:
+                    # GASP only knows the total passenger count and the total cargo mass
+                    max_fuel_pyld = {
+                        'num_pax': int(
+                            self.model.aviary_inputs.get_val(
+                                Aircraft.CrewPayload.Design.NUM_PASSENGERS
+                            )
+                            * payload_frac
+                        ),
+                        'cargo_mass': self.model.aviary_inputs.get_val(
+                            Aircraft.CrewPayload.CARGO_MASS, 'lbm'
+                        )
+                        * payload_frac,
+                    }
+                else:
+                    max_fuel_pyld_wing_cargo = (
+                        self.model.aviary_inputs.get_val(Aircraft.CrewPayload.WING_CARGO, 'lbm')
+                        * payload_frac
+                    )
+                    max_fuel_pyld_misc_cargo = (
+                        self.model.aviary_inputs.get_val(Aircraft.CrewPayload.MISC_CARGO, 'lbm')
+                        * payload_frac
+                    )
+                    max_fuel_pyld_num_first = int(
+                        self.model.aviary_inputs.get_val(
+                            Aircraft.CrewPayload.Design.NUM_FIRST_CLASS
+                        )
+                        * payload_frac
+                    )
+                    max_fuel_pyld_num_bus = int(
+                        self.model.aviary_inputs.get_val(
+                            Aircraft.CrewPayload.Design.NUM_BUSINESS_CLASS
+                        )
+                        * payload_frac
+                    )
+                    max_fuel_pyld_num_economy = int(
+                        self.model.aviary_inputs.get_val(
+                            Aircraft.CrewPayload.Design.NUM_ECONOMY_CLASS
+                        )
+                        * payload_frac
+                    )
+                    max_fuel_pyld = {
+                        'num_first_class': max_fuel_pyld_num_first,
+                        'num_business': max_fuel_pyld_num_bus,
+                        'num_economy': max_fuel_pyld_num_economy,
+                        'wing_cargo': max_fuel_pyld_wing_cargo,
+                        'misc_cargo': max_fuel_pyld_misc_cargo,
+                    }
 
                 # Passenger number rounding and potentially cargo container mass changing means
                 # we don't know if we actually filled the aircraft to exactly TOGW yet. Need to use
@@ -1759,11 +1806,7 @@ class AviaryProblem(om.Problem):
                     self.run_off_design_mission(
                         problem_type=ProblemType.OFF_DESIGN_MAX_RANGE,
                         phase_info=phase_info,
-                        num_first_class=max_fuel_pyld_num_first,
-                        num_business=max_fuel_pyld_num_bus,
-                        num_economy=max_fuel_pyld_num_economy,
-                        wing_cargo=max_fuel_pyld_wing_cargo,
-                        misc_cargo=max_fuel_pyld_misc_cargo,
+                        **max_fuel_pyld,
                         name=self._name + '_max_fuel_plus_payload_range',
                         fill_cargo=True,
                         verbosity=verbosity,
@@ -1789,8 +1832,10 @@ class AviaryProblem(om.Problem):
             # mass to 0 if not using GASP
             if mass_method is GASP:
                 ferry_cargo_mass = 0
+                ferry_num_pax = 0
             else:
                 ferry_cargo_mass = None
+                ferry_num_pax = None
             ferry_range_gross_mass = operating_mass + max_usable_fuel
             ferry_range_prob = self.ferry_range_prob = self.run_off_design_mission(
                 problem_type=ProblemType.OFF_DESIGN_MAX_RANGE,
@@ -1798,6 +1843,7 @@ class AviaryProblem(om.Problem):
                 num_first_class=0,
                 num_business=0,
                 num_economy=0,
+                num_pax=ferry_num_pax,
                 wing_cargo=0,
                 misc_cargo=0,
                 cargo_mass=ferry_cargo_mass,
@@ -1816,6 +1862,7 @@ class AviaryProblem(om.Problem):
                 max_fuel_pyld_range_prob = ferry_range_prob
                 payload_3 = payload_4
                 range_3 = range_4
+                fuel_3 = fuel_4
 
             # Check if OFF_DESIGN_MAX_RANGE missions ran successfully before writing to csv file
             # If both missions ran successfully, writes the payload/range data to a csv file
-- 
2.43.0


From 673e1d135956b13a54eb2d62f49129c60442fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 64/75] fix: saving and reloading a sizing problem keeps its
 gross mass, list options and metadata

---
 aviary/core/aviary_problem.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index d377caf..678f790 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1923,7 +1923,7 @@ class AviaryProblem(om.Problem):
                 # Get the gross mass value from the sizing problem and add it to input list
 
                 if name == Mission.GROSS_MASS or name == Aircraft.Design.GROSS_MASS:
-                    Mission_Summary_GROSS_MASS_val = self.get_val(Mission.GROSS_MASS, units=units)
+                    Mission_Summary_GROSS_MASS_val = self.get_val(name, units=units)
                     Mission_Summary_GROSS_MASS_val_list = Mission_Summary_GROSS_MASS_val.tolist()
                     value = Mission_Summary_GROSS_MASS_val_list[0]
 
@@ -1937,12 +1937,11 @@ class AviaryProblem(om.Problem):
 
                     # Lists are fine except if they contain enums or Paths
                     if type_value is list:
-                        if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
-                        elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                        # make a new list, the inputs themselves must not change
+                        if value and isinstance(value[0], Enum):
+                            value = [item.name for item in value]
+                        elif value and isinstance(value[0], Path):
+                            value = [str(item) for item in value]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
@@ -2166,7 +2165,7 @@ def reload_aviary_problem(
 
     aviary_inputs = _read_sizing_json(filename, metadata, verbosity)
 
-    prob.load_inputs(aviary_inputs, phase_info, verbosity=verbosity)
+    prob.load_inputs(aviary_inputs, phase_info, meta_data=metadata, verbosity=verbosity)
 
     prob.check_and_preprocess_inputs(verbosity=verbosity)
 
-- 
2.43.0


From cd7d05737ff969c19d55007524bd3b79db60c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 65/75] fix: the message for a phase duration that is not
 positive can be formatted

---
 aviary/core/aviary_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 4ee3449..a4b7a47 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -430,8 +430,8 @@ class AviaryGroup(om.Group):
                     if time_duration <= 0:
                         raise ValueError(
                             f'Invalid time_duration in phase_info[{phase_name}]'
-                            f'[user_options]. Current (value: {time_duration[0]}), '
-                            f'(units: {time_duration[1]}) <= 0")'
+                            f'[user_options]. Current (value: {time_duration}), '
+                            f'(units: {units}) <= 0'
                         )
 
                     if 'initial_guesses' not in phase:
-- 
2.43.0


From e2dc0914e318efc608b53ec5c1f21a269250ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 66/75] fix: options given for a subsystem in a phase reach
 that subsystem and no other, and are not overwritten by defaults

---
 .../solved_two_dof/ode/groundroll_ode.py      |  4 +--
 .../solved_two_dof/ode/unsteady_solved_ode.py |  6 +---
 aviary/mission/two_dof/ode/accel_ode.py       | 16 +++++++----
 .../mission/two_dof/ode/breguet_cruise_ode.py | 28 ++++++++-----------
 aviary/mission/two_dof/ode/flight_ode.py      | 11 +++-----
 .../mission/two_dof/ode/simple_cruise_ode.py  |  9 +++---
 .../propulsion/propulsion_mission.py          | 12 ++++----
 7 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/groundroll_ode.py b/aviary/mission/solved_two_dof/ode/groundroll_ode.py
index 3281eb9..37a02b1 100644
--- a/aviary/mission/solved_two_dof/ode/groundroll_ode.py
+++ b/aviary/mission/solved_two_dof/ode/groundroll_ode.py
@@ -44,10 +44,8 @@ class GroundrollODE(TwoDOFODE):
             ],
         )
 
-        kwargs = {
-            'method': 'low_speed',
-        }
         for subsystem in subsystems:
+            kwargs = {'method': 'low_speed'}
             # check if subsystem_options has entry for a subsystem of this name
             if subsystem.name in subsystem_options:
                 kwargs.update(subsystem_options[subsystem.name])
diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_ode.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_ode.py
index 4780b48..2bfe81b 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_ode.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_ode.py
@@ -154,12 +154,8 @@ class UnsteadySolvedODE(TwoDOFODE):
         throttle_balance_group.linear_solver = om.DirectSolver(assemble_jac=True)
         throttle_balance_group.nonlinear_solver.options['err_on_non_converge'] = True
 
-        kwargs = {
-            'method': 'low_speed',
-        }
-        if self.options['clean']:
-            kwargs['method'] = 'cruise'
         for subsystem in subsystems:
+            kwargs = {'method': 'cruise' if self.options['clean'] else 'low_speed'}
             # check if subsystem_options has entry for a subsystem of this name
             if subsystem.name in subsystem_options:
                 kwargs.update(subsystem_options[subsystem.name])
diff --git a/aviary/mission/two_dof/ode/accel_ode.py b/aviary/mission/two_dof/ode/accel_ode.py
index 29780dc..9b043e8 100644
--- a/aviary/mission/two_dof/ode/accel_ode.py
+++ b/aviary/mission/two_dof/ode/accel_ode.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from aviary.mission.two_dof.ode.accel_eom import AccelerationRates
 from aviary.mission.two_dof.ode.two_dof_ode import TwoDOFODE
+from aviary.subsystems.aerodynamics.aerodynamics_builder import AerodynamicsBuilder
 from aviary.subsystems.mass.mass_to_weight import MassToWeight
 from aviary.variable_info.variables import Dynamic
 
@@ -26,11 +27,16 @@ class AccelODE(TwoDOFODE):
             promotes_outputs=['weight'],
         )
 
-        kwargs = {
-            'method': 'cruise',
-            'output_alpha': True,
-        }
-        self.options['subsystem_options'].setdefault('aerodynamics', {}).update(kwargs)
+        # set default options for Aero if not specified by user
+        subsystem_options = self.options['subsystem_options'].copy()
+        for subsystem in self.options['subsystems']:
+            if isinstance(subsystem, AerodynamicsBuilder):
+                subsystem_options[subsystem.name] = {
+                    'method': 'cruise',
+                    'output_alpha': True,
+                    **subsystem_options.get(subsystem.name, {}),
+                }
+        self.options['subsystem_options'] = subsystem_options
 
         self.add_subsystems()
 
diff --git a/aviary/mission/two_dof/ode/breguet_cruise_ode.py b/aviary/mission/two_dof/ode/breguet_cruise_ode.py
index de08a2a..bdf9cd1 100644
--- a/aviary/mission/two_dof/ode/breguet_cruise_ode.py
+++ b/aviary/mission/two_dof/ode/breguet_cruise_ode.py
@@ -34,16 +34,14 @@ class BreguetCruiseODE(TwoDOFODE):
         prop_group = om.Group()
 
         for subsystem in subsystems:
-            # check if subsystem_options has entry for a subsystem of this name
-            if subsystem.name in subsystem_options:
-                kwargs = subsystem_options[subsystem.name]
-            else:
-                kwargs = {}
-
+            kwargs = {}
             if isinstance(subsystem, AerodynamicsBuilder):
                 # set default options for Aero if not specified by user
-                base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs.update({'method': 'cruise', 'output_alpha': True})
+
+            # check if subsystem_options has entry for a subsystem of this name
+            if subsystem.name in subsystem_options:
+                kwargs.update(subsystem_options[subsystem.name])
 
             system = subsystem.build_mission(
                 num_nodes=nn,
@@ -187,16 +185,14 @@ class ElectricBreguetCruiseODE(TwoDOFODE):
         prop_group = om.Group()
 
         for subsystem in subsystems:
-            # check if subsystem_options has entry for a subsystem of this name
-            if subsystem.name in subsystem_options:
-                kwargs = subsystem_options[subsystem.name]
-            else:
-                kwargs = {}
-
+            kwargs = {}
             if isinstance(subsystem, AerodynamicsBuilder):
                 # set default options for Aero if not specified by user
-                base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs.update({'method': 'cruise', 'output_alpha': True})
+
+            # check if subsystem_options has entry for a subsystem of this name
+            if subsystem.name in subsystem_options:
+                kwargs.update(subsystem_options[subsystem.name])
 
             system = subsystem.build_mission(
                 num_nodes=nn,
diff --git a/aviary/mission/two_dof/ode/flight_ode.py b/aviary/mission/two_dof/ode/flight_ode.py
index ec10f9c..8826c39 100644
--- a/aviary/mission/two_dof/ode/flight_ode.py
+++ b/aviary/mission/two_dof/ode/flight_ode.py
@@ -174,16 +174,13 @@ class FlightODE(TwoDOFODE):
         # collect the propulsion group names for later use
         for subsystem in subsystems:
             kwargs = {}
+            if isinstance(subsystem, AerodynamicsBuilder):
+                # set default options for Aero if not specified by user
+                kwargs['method'] = 'cruise'
 
             # check if subsystem_options has entry for a subsystem of this name
             if subsystem.name in subsystem_options:
-                kwargs = subsystem_options[subsystem.name]
-            if isinstance(subsystem, AerodynamicsBuilder):
-                # set default options for Aero if not specified by user
-                base_kwargs = {
-                    'method': 'cruise',
-                }
-                kwargs.update(base_kwargs)
+                kwargs.update(subsystem_options[subsystem.name])
 
             system = subsystem.build_mission(
                 num_nodes=nn,
diff --git a/aviary/mission/two_dof/ode/simple_cruise_ode.py b/aviary/mission/two_dof/ode/simple_cruise_ode.py
index 75c325f..862ff13 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_ode.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_ode.py
@@ -35,14 +35,13 @@ class SimpleCruiseODE(TwoDOFODE):
 
         for subsystem in subsystems:
             kwargs = {}
+            if isinstance(subsystem, AerodynamicsBuilder):
+                # set default options for Aero if not specified by user
+                kwargs.update({'method': 'cruise', 'output_alpha': True})
 
             # check if subsystem_options has entry for a subsystem of this name
             if subsystem.name in subsystem_options:
-                kwargs = subsystem_options[subsystem.name]
-            if isinstance(subsystem, AerodynamicsBuilder):
-                # set default options for Aero if not specified by user
-                base_kwargs = {'method': 'cruise', 'output_alpha': True}
-                kwargs.update(base_kwargs)
+                kwargs.update(subsystem_options[subsystem.name])
 
             system = subsystem.build_mission(
                 num_nodes=nn,
diff --git a/aviary/subsystems/propulsion/propulsion_mission.py b/aviary/subsystems/propulsion/propulsion_mission.py
index 2bc160b..fcf4313 100644
--- a/aviary/subsystems/propulsion/propulsion_mission.py
+++ b/aviary/subsystems/propulsion/propulsion_mission.py
@@ -127,14 +127,14 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                 else:
                     base_comp = engine.build_mission(
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
                     engine_model = om.Group()
 
@@ -142,7 +142,7 @@ class PropulsionMission(om.Group):
                         num_nodes=nn,
                         aviary_inputs=options,
                         user_options=user_options,
-                        subsystem_options={},
+                        subsystem_options=kwargs,
                     )
 
                     input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
@@ -198,14 +198,14 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
             else:
                 base_comp = engine.build_mission(
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
                 engine_model = om.Group()
 
@@ -213,7 +213,7 @@ class PropulsionMission(om.Group):
                     num_nodes=nn,
                     aviary_inputs=options,
                     user_options=user_options,
-                    subsystem_options={},
+                    subsystem_options=kwargs,
                 )
 
                 input_aliases = [(Dynamic.Vehicle.Propulsion.THROTTLE, 'throttle_max')]
-- 
2.43.0


From acaed81ce8226f8290b0cada7c00abe1eda850f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 67/75] fix: variables, names and values declared by engines,
 their components and external subsystems are all collected

---
 aviary/core/aviary_group.py                   |  6 ++++-
 .../propulsion/propulsion_builder.py          | 21 +++++++---------
 .../subsystems/propulsion/turboprop_model.py  | 24 +++++++------------
 3 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index a4b7a47..340f504 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -459,7 +459,11 @@ class AviaryGroup(om.Group):
             self.engine_models = [build_engine_deck(aviary_inputs)]
 
         for external_subsystem in self.external_subsystems:
-            aviary_inputs = external_subsystem.preprocess_inputs(aviary_inputs)
+            new_inputs = external_subsystem.preprocess_inputs(aviary_inputs)
+            if new_inputs is not aviary_inputs:
+                # subsystem returned a modified copy, keep it in the object shared with the problem
+                aviary_inputs.clear()
+                aviary_inputs.update(new_inputs)
 
         # PREPROCESSORS #
         preprocess_options(
diff --git a/aviary/subsystems/propulsion/propulsion_builder.py b/aviary/subsystems/propulsion/propulsion_builder.py
index a7c61ce..1b55919 100644
--- a/aviary/subsystems/propulsion/propulsion_builder.py
+++ b/aviary/subsystems/propulsion/propulsion_builder.py
@@ -69,7 +69,7 @@ class CorePropulsionBuilder(PropulsionBuilder):
     get_mass_names(self) -> list:
         Call get_mass_names() on all engine models and return combined result.
     preprocess_inputs(self) -> aviary_inputs:
-        Call get_mass_names() on all engine models and return combined result.
+        Call preprocess_inputs() on all engine models and return combined result.
     get_timeseries(self) -> list:
         Call get_timeseries() on all engine models and return combined result.
     report(self):
@@ -205,14 +205,14 @@ class CorePropulsionBuilder(PropulsionBuilder):
     # NOTE no unittests!
     def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
         """Call get_linked_variables() on all engine models and return combined result."""
-        linked_vars = {}
+        linked_vars = []
         for engine in self.engine_models:
             engine_linked_vars = engine.get_linked_variables(
                 aviary_inputs=aviary_inputs,
                 user_options=user_options,
                 subsystem_options=subsystem_options,
             )
-            linked_vars.update(engine_linked_vars)
+            linked_vars.extend(engine_linked_vars)
 
         return linked_vars
 
@@ -260,22 +260,19 @@ class CorePropulsionBuilder(PropulsionBuilder):
     # NOTE no unittests!
     def get_mass_names(self, aviary_inputs=None):
         """Call get_mass_names() on all engine models and return combined result."""
-        mass_names = {}
+        mass_names = []
         for engine in self.engine_models:
-            engine_mass_names = engine.get_mass_names(aviary_inputs=aviary_inputs)
-            mass_names.update(engine_mass_names)
+            mass_names.extend(engine.get_mass_names(aviary_inputs=aviary_inputs))
 
         return mass_names
 
     # NOTE no unittests!
     def preprocess_inputs(self, aviary_inputs=None):
-        """Call get_mass_names() on all engine models and return combined result."""
-        mass_names = {}
+        """Call preprocess_inputs() on all engine models and return combined result."""
         for engine in self.engine_models:
-            engine_mass_names = engine.get_mass_names(aviary_inputs=aviary_inputs)
-            mass_names.update(engine_mass_names)
+            aviary_inputs = engine.preprocess_inputs(aviary_inputs=aviary_inputs)
 
-        return mass_names
+        return aviary_inputs
 
     # NOTE no unittests!
     def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
@@ -287,7 +284,7 @@ class CorePropulsionBuilder(PropulsionBuilder):
                 user_options=user_options,
                 subsystem_options=subsystem_options,
             )
-            outputs.append(engine_outputs)
+            outputs.extend(engine_outputs)
 
         return outputs
 
diff --git a/aviary/subsystems/propulsion/turboprop_model.py b/aviary/subsystems/propulsion/turboprop_model.py
index 81fab4c..a87e551 100644
--- a/aviary/subsystems/propulsion/turboprop_model.py
+++ b/aviary/subsystems/propulsion/turboprop_model.py
@@ -535,11 +535,11 @@ class TurbopropModel(EngineModel):
     def preprocess_inputs(self, aviary_inputs=None):
         new_inputs = super().preprocess_inputs(aviary_inputs)
         if self.shaft_power_model is not None:
-            new_inputs.update(self.shaft_power_model.preprocess_inputs(aviary_inputs=new_inputs))
+            new_inputs = self.shaft_power_model.preprocess_inputs(aviary_inputs=new_inputs)
         if self.gearbox_model is not None:
-            new_inputs.update(self.gearbox_model.get_mass_names(aviary_inputs=new_inputs))
+            new_inputs = self.gearbox_model.preprocess_inputs(aviary_inputs=new_inputs)
         if self.propeller_model is not None:
-            new_inputs.update(self.propeller_model.get_mass_names(aviary_inputs=new_inputs))
+            new_inputs = self.propeller_model.preprocess_inputs(aviary_inputs=new_inputs)
         return new_inputs
 
     def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
@@ -564,18 +564,12 @@ class TurbopropModel(EngineModel):
         new_bus = super().get_post_mission_bus_variables(
             aviary_inputs, mission_info
         )  # calls from EngineModel
-        if self.shaft_power_model is not None:
-            new_bus.update(
-                self.shaft_power_model.get_post_mission_bus_variables(aviary_inputs, mission_info)
-            )
-        if self.gearbox_model is not None:
-            new_bus.update(
-                self.gearbox_model.get_post_mission_bus_variables(aviary_inputs, mission_info)
-            )
-        if self.propeller_model is not None:
-            new_bus.update(
-                self.propeller_model.get_post_mission_bus_variables(aviary_inputs, mission_info)
-            )
+        for model in (self.shaft_power_model, self.gearbox_model, self.propeller_model):
+            if model is not None:
+                extra_bus = model.get_post_mission_bus_variables(aviary_inputs, mission_info)
+                # bus variables are sorted by phase, several models can have some in the same phase
+                for phase_name, phase_vars in extra_bus.items():
+                    new_bus[phase_name] = {**new_bus.get(phase_name, {}), **phase_vars}
         return new_bus
 
     def report(self, prob, reports_folder, **kwargs):
-- 
2.43.0


From 11ada5f9d09c0be36fc9a69719ba3001f0eb841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 68/75] fix: aerodynamics is left out before the mission only
 when all phases are tabular, and the default model gets the options of the
 phase

---
 aviary/core/aviary_group.py                      | 16 +++++-----------
 .../aerodynamics/aerodynamics_builder.py         | 12 ++++++------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 340f504..d2e4154 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -494,17 +494,11 @@ class AviaryGroup(om.Group):
         energy = CoreEnergyBuilder('energy', meta_data=self.meta_data)
 
         # If all phases ask for tabular aero, we can skip pre-mission. Check phase_info
-        tabular = False
-        for phase in self.mission_info:
-            if phase not in ('pre_mission', 'post_mission'):
-                try:
-                    if (
-                        'tabular'
-                        in self.mission_info[phase]['subsystem_options']['aerodynamics']['method']
-                    ):
-                        tabular = True
-                except KeyError:
-                    tabular = False
+        aero_methods = [
+            phase.get('subsystem_options', {}).get('aerodynamics', {}).get('method', None)
+            for phase in self.mission_info.values()
+        ]
+        tabular = len(aero_methods) > 0 and all('tabular' in (m or '') for m in aero_methods)
 
         aero = CoreAerodynamicsBuilder(
             'aerodynamics', code_origin=self.aero_method, tabular=tabular, meta_data=self.meta_data
diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index c233be8..00bc946 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -122,11 +122,10 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
                         "The 'solve_alpha' flag has been set, but is not used for FLOPS-based "
                         'aerodynamics.'
                     )
+                aero_opts.pop('solve_alpha')
 
-            if method is None:
-                aero_group = ComputedAeroGroup(num_nodes=num_nodes)
-
-            elif method == 'computed':
+            # FLOPS default is 'computed'
+            if method is None or method == 'computed':
                 aero_group = ComputedAeroGroup(num_nodes=num_nodes, **aero_opts)
 
             elif method == 'low_speed':
@@ -152,10 +151,11 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
             except KeyError:
                 solve_alpha = False
 
+            # GASP default is 'cruise'
             if method is None:
-                aero_group = CruiseAero(num_nodes=num_nodes)
+                method = 'cruise'
 
-            elif method == 'cruise':
+            if method == 'cruise':
                 aero_group = CruiseAero(num_nodes=num_nodes, **aero_opts)
 
             elif method == 'tabular_cruise':
-- 
2.43.0


From 5ff8c159c07873787d278b0e8cee9d2e48704508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 69/75] fix: a guess given as an integer is a guess

---
 aviary/mission/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/utils.py b/aviary/mission/utils.py
index be66c25..8692a8c 100644
--- a/aviary/mission/utils.py
+++ b/aviary/mission/utils.py
@@ -93,8 +93,8 @@ def process_guess_var(val, key, phase):
     val : float or array of floats
         The processed guess value(s) to be used in the optimization problem.
     """
-    # Check if val is not a single float
-    if not isinstance(val, float):
+    # Check if val is not a single number
+    if not isinstance(val, (float, int)):
         # If val is an array of values
         if len(val) > 1:
             # Get the shape of the val array
-- 
2.43.0


From c2346af1c2c6534ae37f1516646bd52305872940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:59 +0000
Subject: [PATCH 70/75] fix: no payload-range diagram from a failed or
 multi-mission sizing, whatever the verbosity

---
 aviary/core/aviary_problem.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index 678f790..4b8042b 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1682,16 +1682,18 @@ class AviaryProblem(om.Problem):
         """
         verbosity = self._override_verbosity(verbosity)
 
-        if not self.result.success and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
-            )
+        if not self.result.success:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams cannot be generated for unconverged Aviary problems.'
+                )
             return ()
-        elif self.problem_type is ProblemType.MULTI_MISSION and verbosity > Verbosity.QUIET:
-            warnings.warn(
-                'Payload Range Diagrams currently cannot be generated for aircraft designed '
-                'using multimission capability.'
-            )
+        elif self.problem_type is ProblemType.MULTI_MISSION:
+            if verbosity > Verbosity.QUIET:
+                warnings.warn(
+                    'Payload Range Diagrams currently cannot be generated for aircraft designed '
+                    'using multimission capability.'
+                )
             return ()
 
         # Off-design missions are not tested with 2DOF missions.
-- 
2.43.0


From f91ee663084fa67a3325ed783dae6abd6319a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 71/75] fix: a given strut or fold mass is used also for a wing
 without strut or fold

---
 aviary/subsystems/mass/gasp_based/wing.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/wing.py b/aviary/subsystems/mass/gasp_based/wing.py
index a7dca01..cf155cb 100644
--- a/aviary/subsystems/mass/gasp_based/wing.py
+++ b/aviary/subsystems/mass/gasp_based/wing.py
@@ -700,19 +700,11 @@ class WingMassGroup(om.Group):
             'c_gear_loc',
             'half_sweep',
         ]
-        if self.options[Aircraft.Wing.HAS_FOLD] or self.options[Aircraft.Wing.HAS_STRUT]:
-            higher_level_inputs_total = ['*']
-        else:
-            higher_level_inputs_total = []
 
         # variables that are passed within the group but not used at a higher level
         connected_outputs_isolated = [
             'isolated_wing_mass',
         ]
-        connected_inputs_total = [
-            Aircraft.Wing.MASS_SCALER,
-            'isolated_wing_mass',
-        ]
 
         isolated_mass = self.add_subsystem(
             'isolated_mass',
@@ -730,7 +722,7 @@ class WingMassGroup(om.Group):
         self.add_subsystem(
             'total_mass',
             WingMassTotal(),
-            promotes_inputs=connected_inputs_total + higher_level_inputs_total,
+            promotes_inputs=['*'],
             promotes_outputs=['*'],
         )
 
@@ -760,19 +752,10 @@ class BWBWingMassGroup(om.Group):
         add_aviary_option(self, Aircraft.Wing.HAS_STRUT)
 
     def setup(self):
-        # variables that are calculated at a higher level
-        if self.options[Aircraft.Wing.HAS_FOLD] or self.options[Aircraft.Wing.HAS_STRUT]:
-            higher_level_inputs_total = ['*']
-        else:
-            higher_level_inputs_total = []
-
         # variables that are passed within the group but not used at a higher level
         connected_outputs_isolated = [
             'isolated_wing_mass',
         ]
-        connected_inputs_total = [
-            'isolated_wing_mass',
-        ]
 
         isolated_mass = self.add_subsystem(
             'isolated_mass',
@@ -790,7 +773,7 @@ class BWBWingMassGroup(om.Group):
         self.add_subsystem(
             'total_mass',
             WingMassTotal(),
-            promotes_inputs=connected_inputs_total + higher_level_inputs_total,
+            promotes_inputs=['*'],
             promotes_outputs=['*'],
         )
 
-- 
2.43.0


From 7c6a19ebc07f49c19cf5145f673f4272e394ff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 72/75] fix: the options of an engine stay with it when the
 name of another engine starts with its name

---
 aviary/variable_info/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..d9a0a76 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -607,5 +607,7 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
+        # only this engine and its components, not others whose name starts with the same letters
+        path = f'{prefix}*propulsion.{eng_name}'
         prob.model_options[path] = opts
+        prob.model_options[f'{path}.*'] = opts
-- 
2.43.0


From 7e54de6bb4daeb837b804255735f0801b1c8fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 73/75] fix: drag calibration factors and rolling friction
 given for a GASP mission are used in it

---
 .../mission/solved_two_dof/phases/groundroll_phase.py  |  7 ++++++-
 .../solved_two_dof/phases/solved_twodof_phase.py       |  8 +++++++-
 aviary/mission/two_dof/phases/takeoff_phase.py         |  8 ++++++++
 aviary/subsystems/aerodynamics/aerodynamics_builder.py | 10 ++++++++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/solved_two_dof/phases/groundroll_phase.py b/aviary/mission/solved_two_dof/phases/groundroll_phase.py
index 724cb63..1f17b78 100644
--- a/aviary/mission/solved_two_dof/phases/groundroll_phase.py
+++ b/aviary/mission/solved_two_dof/phases/groundroll_phase.py
@@ -10,7 +10,7 @@ from aviary.mission.solved_two_dof.ode.groundroll_ode import GroundrollODE
 from aviary.utils.aviary_options_dict import AviaryOptionsDictionary
 from aviary.utils.aviary_values import AviaryValues
 from aviary.variable_info.variable_meta_data import CoreMetaData
-from aviary.variable_info.variables import Aircraft, Dynamic
+from aviary.variable_info.variables import Aircraft, Dynamic, Mission
 
 # Solved 2DOF uses this builder.
 #
@@ -211,6 +211,11 @@ class GroundrollPhase(PhaseBuilder):
             'units': CoreMetaData[Aircraft.Wing.INCIDENCE]['units'],
             'static_target': True,
         }
+        params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+            'shape': (1,),
+            'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+            'static_target': True,
+        }
         return params
 
 
diff --git a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
index a9d7208..fc47a15 100644
--- a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
+++ b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
@@ -12,7 +12,7 @@ from aviary.utils.aviary_values import AviaryValues
 from aviary.utils.utils import wrapped_convert_units
 from aviary.variable_info.enums import EquationsOfMotion, SpeedType, ThrottleAllocation
 from aviary.variable_info.variable_meta_data import CoreMetaData
-from aviary.variable_info.variables import Aircraft, Dynamic
+from aviary.variable_info.variables import Aircraft, Dynamic, Mission
 
 # TODO: support/handle the following in the base class
 # - phase.set_time_options()
@@ -313,6 +313,12 @@ class SolvedTwoDOFPhase(FlightPhaseBase):
             'units': CoreMetaData[Aircraft.Wing.INCIDENCE]['units'],
             'static_target': True,
         }
+        if self.user_options.get_val('ground_roll'):
+            params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+                'shape': (1,),
+                'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+                'static_target': True,
+            }
         return params
 
 
diff --git a/aviary/mission/two_dof/phases/takeoff_phase.py b/aviary/mission/two_dof/phases/takeoff_phase.py
index 1512587..113eb61 100644
--- a/aviary/mission/two_dof/phases/takeoff_phase.py
+++ b/aviary/mission/two_dof/phases/takeoff_phase.py
@@ -309,6 +309,7 @@ class TakeoffPhase(PhaseBuilder):
 
     def get_parameters(self):
         ground_roll = self.user_options.get_val('ground_roll')
+        rotation = self.user_options.get_val('rotation')
 
         params = {}
         params[Aircraft.Wing.INCIDENCE] = {
@@ -317,6 +318,13 @@ class TakeoffPhase(PhaseBuilder):
             'static_target': True,
         }
 
+        if ground_roll or rotation:
+            params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+                'shape': (1,),
+                'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+                'static_target': True,
+            }
+
         if ground_roll:
             params[Aircraft.Wing.AREA] = {
                 'shape': (1,),
diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index 00bc946..628b8a7 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -886,32 +886,41 @@ ENGINE_SIZED_INPUTS = [
 AERO_2DOF_INPUTS = [
     Aircraft.Design.CG_DELTA,
     Aircraft.Design.DRAG_COEFFICIENT_INCREMENT,  # drag increment?
+    Aircraft.Design.EXCRESCENCE_DRAG_FACTOR,
+    Aircraft.Design.INTERFERENCE_DRAG_FACTOR,
     Aircraft.Design.STATIC_MARGIN,
     Aircraft.Fuselage.AVG_DIAMETER,
+    Aircraft.Fuselage.DRAG_FACTOR,
     Aircraft.Fuselage.FLAT_PLATE_AREA_INCREMENT,
     Aircraft.Fuselage.LENGTH,
     Aircraft.Fuselage.WETTED_AREA,
     Aircraft.Fuselage.FORM_FACTOR,
     Aircraft.HorizontalTail.AREA,
     Aircraft.HorizontalTail.AVERAGE_CHORD,
+    Aircraft.HorizontalTail.DRAG_FACTOR,
     Aircraft.HorizontalTail.FORM_FACTOR,
     Aircraft.HorizontalTail.MOMENT_RATIO,
     Aircraft.HorizontalTail.SPAN,
     Aircraft.HorizontalTail.SWEEP,
     Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION,
     Aircraft.Nacelle.AVG_LENGTH,
+    Aircraft.Nacelle.DRAG_FACTOR,
     Aircraft.Nacelle.FORM_FACTOR,
+    Aircraft.Nacelle.PYLON_DRAG_FACTOR,
     Aircraft.Nacelle.SURFACE_AREA,
     Aircraft.Strut.AREA_RATIO,
     Aircraft.Strut.CHORD,
+    Aircraft.Strut.DRAG_FACTOR,
     Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.VerticalTail.AREA,
     Aircraft.VerticalTail.AVERAGE_CHORD,
+    Aircraft.VerticalTail.DRAG_FACTOR,
     Aircraft.VerticalTail.FORM_FACTOR,
     Aircraft.VerticalTail.SPAN,
     Aircraft.Wing.AVERAGE_CHORD,
     Aircraft.Wing.AREA,
     Aircraft.Wing.ASPECT_RATIO,
+    Aircraft.Wing.DRAG_FACTOR,
     Aircraft.Wing.FORM_FACTOR,
     Aircraft.Wing.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.Wing.MAX_THICKNESS_LOCATION,
@@ -944,6 +953,7 @@ AERO_LS_2DOF_INPUTS = [
 ]
 
 AERO_CLEAN_2DOF_INPUTS = [
+    Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
     Aircraft.Design.DRAG_DIVERGENCE_SHIFT,  # super drag shift?
     Aircraft.Design.LIFT_COEFFICIENT_MAX_FLAPS_UP,
     Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
-- 
2.43.0


From 5c54e24fbf4b84c9c1c17a039b309fc2988086e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 74/75] fix: tabular aerodynamics of a GASP blended wing body
 has parameters

---
 aviary/subsystems/aerodynamics/aerodynamics_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index 628b8a7..d584cb0 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -671,9 +671,9 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
             elif method == 'cruise':
                 all_vars = set(AERO_2DOF_INPUTS + AERO_CLEAN_2DOF_INPUTS)
             elif method == 'tabular_low_speed':
-                all_vars = AERO_2DOF_TABULAR_LS_INPUTS
+                all_vars = set(AERO_2DOF_TABULAR_LS_INPUTS)
             elif method == 'tabular_cruise':
-                all_vars = TABULAR_CORE_INPUTS
+                all_vars = set(TABULAR_CORE_INPUTS)
             else:
                 raise ValueError(
                     'GASP-based aero method is not one of the following: (cruise, '
@@ -685,7 +685,7 @@ class CoreAerodynamicsBuilder(AerodynamicsBuilder):
             except KeyError:
                 design_type = AircraftTypes.TRANSPORT
 
-            if design_type is AircraftTypes.BLENDED_WING_BODY:
+            if design_type is AircraftTypes.BLENDED_WING_BODY and 'tabular' not in method:
                 all_vars.add(Aircraft.Fuselage.LIFT_CURVE_SLOPE_MACH0)
                 all_vars.add(Aircraft.Fuselage.HYDRAULIC_DIAMETER)
                 all_vars.add(Aircraft.Fuselage.PLANFORM_AREA)
-- 
2.43.0


From a4c0f616ef063e7b786f50410c1c6f497682e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 75/75] fix: an engine type that does not compute a quantity
 keeps its value beside one that does

---
 .../propulsion/propulsion_premission.py       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/propulsion/propulsion_premission.py b/aviary/subsystems/propulsion/propulsion_premission.py
index 14c2992..e42fb45 100644
--- a/aviary/subsystems/propulsion/propulsion_premission.py
+++ b/aviary/subsystems/propulsion/propulsion_premission.py
@@ -2,10 +2,12 @@ import sys
 
 import numpy as np
 import openmdao.api as om
+from openmdao.utils.units import convert_units
 
 from aviary.utils.aviary_values import AviaryValues
 from aviary.variable_info.enums import Verbosity
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
+from aviary.variable_info.variable_meta_data import _MetaData as BaseMetaData
 from aviary.variable_info.variables import Aircraft, Settings
 
 
@@ -83,6 +85,7 @@ class PropulsionPreMission(om.Group):
         # vectorized inputs/outputs are a problem. Slice all needed vector inputs and pass
         # pre_mission components only the value they need, then mux all the outputs back together.
 
+        aviary_options = self.options['aviary_options']
         engine_models = self.options['engine_models']
         num_engine_type = len(engine_models)
 
@@ -184,10 +187,18 @@ class PropulsionPreMission(om.Group):
                     else:
                         # If this component does not provide the output, pass the existing value for
                         # that index to the mux
-                        self.connect(
-                            output,
-                            'pre_mission_mux.' + output + '_' + str(i),
-                            src_indices=om.slicer[i],
+                        units = unique_outputs[output]
+                        if output in aviary_options:
+                            val = aviary_options.get_val(output, units)[i]
+                        elif output in BaseMetaData:
+                            meta = BaseMetaData[output]
+                            val = meta['default_value']
+                            val = 0.0 if val is None else np.ravel(val)[0]
+                            val = convert_units(val, meta['units'], units)
+                        else:
+                            continue
+                        self.set_input_defaults(
+                            'pre_mission_mux.' + output + '_' + str(i), val=val, units=units
                         )
 
 
-- 
2.43.0

