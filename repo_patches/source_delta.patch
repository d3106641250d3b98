From 6a7769268c34d45bcbf4855cecf82d82675cab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 01/53] fix: refuse a single macroparticle beyond N_mp_max
 instead of losing it silently

---
 MP_system.py            | 10 ++++++++++
 gas_ionization_class.py |  1 +
 2 files changed, 11 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..c3a8322 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -469,6 +469,7 @@ class MP_system:
                     flag_np = self.chamb.is_outside(x_temp, y_temp)  # (((x_temp/x_aper)**2 + (y_temp/y_aper)**2)>=1);
                     Nout = np.sum(flag_np)
 
+                self.check_capacity(Nint_new_MP)
                 self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = x_temp
                 #Be careful to the indexing when translating to python
                 self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
@@ -516,6 +517,7 @@ class MP_system:
             y_temp = y_temp[flag_keep]
             Nint_new_MP = len(x_temp)
 
+            self.check_capacity(Nint_new_MP)
             self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = x_temp
             #Be careful to the indexing when translating to python
             self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
@@ -535,7 +537,14 @@ class MP_system:
     def get_positions(self):
             return MP_positions(self.x_mp[:self.N_mp], self.y_mp[:self.N_mp], self.z_mp[:self.N_mp])
 
+    def check_capacity(self, N_new_MP):
+        # A slice past the end of the arrays would silently accept a single MP
+        if self.N_mp + N_new_MP > len(self.x_mp):
+            raise ValueError('Cloud %s: cannot add %d MPs to the existing %d: N_mp_max=%d exceeded!'
+                             % (self.name, N_new_MP, self.N_mp, len(self.x_mp)))
+
     def add_new_MPs(self, N_new_MP, nel_new_mp, x, y, z, vx, vy, vz, t_last_impact):
+        self.check_capacity(N_new_MP)
         N_mp_old = self.N_mp
         N_mp_new = self.N_mp + N_new_MP
         self.x_mp[N_mp_old:N_mp_new] = x
@@ -559,6 +568,7 @@ class MP_system:
             dict_MP_init = filename_MPs
 
         Nint_new_MP = int(dict_MP_init['N_mp'])
+        self.check_capacity(Nint_new_MP)
 
         self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['x_mp'])
         self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['y_mp'])
diff --git a/gas_ionization_class.py b/gas_ionization_class.py
index 096495a..b056ca1 100644
--- a/gas_ionization_class.py
+++ b/gas_ionization_class.py
@@ -115,6 +115,7 @@ class residual_gas_ionization:
                 flag_np = self.chamb.is_outside(x_temp, y_temp)  # (((x_temp/x_aper)**2 + (y_temp/y_aper)**2)>=1)
                 Nout = int(sum(flag_np))
 
+            MP_e.check_capacity(Nint_new_MP)
             MP_e.x_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = x_temp # Be careful to the indexing when translating to python
             MP_e.y_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = y_temp
             MP_e.z_mp[ MP_e.N_mp: MP_e.N_mp + Nint_new_MP] = 0. # randn(Nint_new_MP,1)
-- 
2.43.0


From a59599b0a8ae3f0bec4caead2cde09227b27aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 02/53] fix: reset t_last_impact of the MPs added by
 add_uniform_MP_distrib (not of the slots after them)

---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index c3a8322..54d4b5a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -481,11 +481,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 79dc142a8d7992915ae3091630e3f1487c091867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 03/53] fix: keep t_last_impact when the MP state is extracted
 and reloaded

---
 MP_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 54d4b5a..dd5bff7 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -598,6 +598,8 @@ class MP_system:
             'nel_mp': self.nel_mp[:self.N_mp].copy(),
             'N_mp': self.N_mp,
         }
+        if self.flag_lifetime_hist:
+            dict_MP['t_last_impact'] = self.t_last_impact[:self.N_mp].copy()
         return dict_MP
 
     def init_from_dict(self, dict_MP):
-- 
2.43.0


From 029f458796a2a246567176372ab58fc8b6ace063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 04/53] fix: drop the charge of the previous MPs when the MP
 system is initialised from a dictionary

---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index dd5bff7..10795eb 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -604,4 +604,5 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From 24e27ba7022c9a66b2da4027a39d641b1038dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 05/53] fix: keep extreme macroparticles in the outermost
 regeneration cell for even grid sizes

---
 MP_system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 10795eb..60b5a38 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -307,11 +307,11 @@ class MP_system:
 
             ##
             #% MATLAB-like indices
-            ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x
-            iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y
-            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx
-            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy
-            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz
+            ix_mp = np.clip(np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x, 1, self.Nx_reg)
+            iy_mp = np.clip(np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y, 1, self.Ny_reg)
+            ivx_mp = np.clip(np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx, 1, self.Nvx_reg)
+            ivy_mp = np.clip(np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy, 1, self.Nvy_reg)
+            ivz_mp = np.clip(np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz, 1, self.Nvz_reg)
             #
             #
             #
-- 
2.43.0


From b64db27f321da6e53ff0c4240e65614e49a1b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 06/53] fix: report the wall, normal and segment for paths that
 end on an edge or cross a vertex (zero normal, segment 0 before)

---
 geom_impact_poly_cython.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..05e2ca4 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -32,7 +32,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
     #with nogil, parallel():
     #for i_imp in prange(N_impacts):
     for i_imp in xrange(N_impacts):
-        t_min_curr = 1.
+        t_min_curr = 1. + 1e-9 # the path can end on the edge
         i_found_curr = -1
         fould_curr = False
         x_in_curr = x_in[i_imp]
@@ -52,7 +52,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
                 t_border=((y_out_curr-y_in_curr)*(x_in_curr-Vx[ii])+(x_in_curr-x_out_curr)*(y_in_curr-Vy[ii]))/den
 
 
-            if t_border>=0. and t_border<=1.:
+            if t_border>=-1e-9 and t_border<=1.+1e-9: # the path can cross a vertex
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
                 if t_ii>=0. and t_ii<t_min_curr:
                     t_min_curr=t_ii
@@ -68,7 +68,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
         if i_found_curr>=0:
             Nx_int[i_imp] = Nx[i_found_curr]
             Ny_int[i_imp] = Ny[i_found_curr]
-            i_found[i_imp] = i_found_curr
+        i_found[i_imp] = i_found_curr
 
     return x_int, y_int, z_int, Nx_int, Ny_int, i_found
 
-- 
2.43.0


From 7c3610e553d9b6c2f811bf94cd53e3bd6ee47b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 07/53] fix: keep the longitudinal position of particles that
 hit a polygonal wall

---
 geom_impact_poly_cython.pyx     | 2 +-
 geom_impact_poly_fast_impact.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index 05e2ca4..2232e83 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -63,7 +63,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
         t_min_curr=resc_fac*t_min_curr
         x_int[i_imp]=t_min_curr*x_out_curr+(1.-t_min_curr)*x_in_curr
         y_int[i_imp]=t_min_curr*y_out_curr+(1.-t_min_curr)*y_in_curr
-        z_int[i_imp]=0
+        z_int[i_imp]=t_min_curr*z_out[i_imp]+(1.-t_min_curr)*z_in[i_imp]
 
         if i_found_curr>=0:
             Nx_int[i_imp] = Nx[i_found_curr]
diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 2bdffaa..39ead20 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -180,6 +180,7 @@ class polyg_cham_geom_object(object):
 
             x_int[mask_not_found] = x_in[mask_not_found]
             y_int[mask_not_found] = y_in[mask_not_found]
+            z_int[mask_not_found] = z_in[mask_not_found]
 
             #compute some kind of normal ....
             par_cross = arctan2(self.cx * y_in[mask_not_found], self.cy * x_int[mask_not_found])
@@ -225,6 +226,7 @@ class polyg_cham_geom_object(object):
                 self.N_mp_corrected = self.N_mp_corrected + sum(flag_impact)
                 x_int[flag_impact] = x_in[flag_impact]
                 y_int[flag_impact] = y_in[flag_impact]
+                z_int[flag_impact] = z_in[flag_impact]
                 x_in_error = x_in[flag_impact]
                 y_in_error = y_in[flag_impact]
                 x_out_error = x_out[flag_impact]
-- 
2.43.0


From e3c031f35fcbd2755167d0dbe4a1697e4415d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 08/53] fix: give the flat low-energy SEY model its reflected
 component (alias made it always zero)

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From cd2c7787525040635c615c1a5a1a89df5849dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 09/53] fix: load the SEY table from the file that was found
 (sey_files folder)

---
 sec_emission_model_from_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..696b6f7 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From 18e3900f0c97900b15c93803842a5ca34ad3b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 10/53] fix: interpolate SEY tables with their actual energy
 step (it was rounded to 1 meV)

---
 sec_emission_model_from_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index 696b6f7..e33325b 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -111,9 +111,9 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         extrapolate_const_elast = float(sey_properties['extrapolate_const_elast'].squeeze())
 
         diff_e = np.round(np.diff(energy_eV), 3)
-        delta_e = diff_e[0]
-        if np.any(diff_e != delta_e):
-            raise ValueError('Energy in file %s is not equally spaced.' % sey_file_real)
+        if np.any(diff_e != diff_e[0]):
+            raise ValueError('Energy in file %s is not equally spaced.' % sey_file)
+        delta_e = (energy_eV[-1] - energy_eV[0]) / (len(energy_eV) - 1)
 
         # sey_diff is needed by the interp function
         # A 0 is appended because this last element is never needed but the array must have the correct shape
-- 
2.43.0


From 9d564bab0757e1455973f053899eb639b90c2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 11/53] fix: give single true secondaries of the Furman-Pivi
 model their emission velocity (they kept the impact velocity)

---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From 0bf68c7eae3f2df00bf0fdf5cc1115b10545817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 12/53] fix: accept filling pattern files with a single bunch

---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 1dc8fe2..415f5f0 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.squeeze(dict_fillp['ppb_vect'])
+                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.squeeze(dict_fillp['sigmaz_vect'])
+                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From 58cd542fd5c3370464b70fd04fe86665595c11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 13/53] fix: copy the per-segment SEY parameters of the chamber
 (the defaults of one cloud were imposed on the next ones)

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..cbbf616 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=np.float64)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=np.float64)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=np.float64)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From db74b9d49e0325b755e8f6c9e5c4dd8295331c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 14/53] fix: do not charge insulating segments when extracting
 SEY curves and energy distributions

---
 impact_management_class.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..775e8b4 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -50,6 +50,7 @@
 #
 #-End-preamble---------------------------------------------------------
 
+import copy
 import numpy as np
 from . import hist_for as histf
 from . import seg_impact as segi
@@ -358,8 +359,17 @@ class impact_management(object):
 
         return MP_e
 
+    def _get_sey_mod_for_extraction(self):
+        # The test impacts must not charge the insulating segments of the simulation
+        sey_mod = copy.copy(self.sey_mod)
+        if hasattr(sey_mod, 'flag_charging'):
+            sey_mod.flag_charging = np.zeros_like(sey_mod.flag_charging)
+        return sey_mod
+
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
+        sey_mod = self._get_sey_mod_for_extraction()
+
         deltas = {}
         for etype in list(self.sey_mod.event_types.keys()):
             etype_name = self.sey_mod.event_types[etype]
@@ -381,7 +391,7 @@ class impact_management(object):
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    sey_mod.impacts_on_surface(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -407,6 +417,8 @@ class impact_management(object):
 
     def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
         """Extract energy distributions for secondary electrons."""
+        sey_mod = self._get_sey_mod_for_extraction()
+
         emit_ene_g_hist = np.linspace(
             0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
         Dextract_ene = emit_ene_g_hist[1] - emit_ene_g_hist[0]
@@ -430,7 +442,7 @@ class impact_management(object):
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                sey_mod.impacts_on_surface(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From 85fc549a126d7a246492fd531234b9bdb290aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 15/53] fix: use the histogram and sub-step parameters of each
 additional cloud (those of the main cloud were imposed)

---
 init.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/init.py b/init.py
index 0485389..3113021 100644
--- a/init.py
+++ b/init.py
@@ -406,16 +406,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
@@ -510,7 +510,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 4b419b46a569227bc20f2c3cb5e39859bdf2872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 16/53] fix: look for the profile file of a secondary beam
 under its own name (the one of the main beam was used)

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 3113021..1b99f8a 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From 1b185dadf5551753131904fe81b50159a6a142be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 17/53] fix: allow secondary beams without a progress file
 (progress_path = None crashed)

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 1b99f8a..0d3ad53 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file_sec = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    progress_mapgen_file_sec = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file_sec))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From ff5b5cfe52aaae3a10e576205f396cbacff93f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 18/53] fix: stop cross-ionization when no target is left (the
 target density became negative)

---
 cross_ionization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cross_ionization.py b/cross_ionization.py
index d16362e..936735f 100644
--- a/cross_ionization.py
+++ b/cross_ionization.py
@@ -162,6 +162,10 @@ class Ionization_Process(object):
         # Calculate remaining density
         if flag_generate:
             DN_target = np.sum(DN_per_proj)
+            if DN_target > self.N_target:
+                # Not enough targets left for all projectiles
+                DN_per_proj = DN_per_proj * (self.N_target / DN_target)
+                DN_target = self.N_target
             self.N_target =  np.round(self.N_target - DN_target, 3)
             self.target_dens = self.N_target / self.target_area
 
-- 
2.43.0


From 71c3234274c3535f7a7aa0947974ace9c700d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 19/53] fix: interpolate cross sections with their actual
 energy step (it was rounded to 1e-8)

---
 cross_ionization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cross_ionization.py b/cross_ionization.py
index 936735f..53fe3a6 100644
--- a/cross_ionization.py
+++ b/cross_ionization.py
@@ -142,7 +142,8 @@ class Ionization_Process(object):
             else:
                 flag_log = True
 
-        self.delta_x_interp = delta_x_interp
+        # Use the actual step (the rounded one is only meant for the checks above)
+        self.delta_x_interp = (x_interp[-1] - x_interp[0]) / (len(x_interp) - 1)
         self.x_interp_min = x_interp_min
         self.flag_log = flag_log
 
-- 
2.43.0


From 9f507b25540af238cd40d1514b32f2fc2a02131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 20/53] fix: save the charge density movie of each cloud in the
 output folder (missing slash made multi-cloud movies crash)

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..5856831 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1057,7 +1057,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1070,7 +1070,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 819d764f6fec8881274fc1b8dc385de6c1e51992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 21/53] fix: store copies of the field in the field movie
 (grids solved in place overwrote the recorded frames)

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5856831..faca479 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1094,8 +1094,8 @@ class pyecloud_saver:
                 self.efy_video = []
                 self.t_efield_video = []
             if spacech_ele.last_recomputation_check:
-                self.efx_video.append(spacech_ele.efx)
-                self.efy_video.append(spacech_ele.efy)
+                self.efx_video.append(spacech_ele.efx.copy())
+                self.efy_video.append(spacech_ele.efy.copy())
                 self.t_efield_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.efx_video = np.array(self.efx_video)
-- 
2.43.0


From a8b9ca4a77cb93321035ad9541f4494acead313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 22/53] fix: save the last sample of the density probes (one
 shorter than the time axis)

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index faca479..9b5adb8 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From 00b80617fc560e2b4c135c33481cf4f7b482e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 23/53] fix: reset the detailed histogram also at passages with
 no particles (the previous row was repeated)

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 9b5adb8..85e8ba1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 566bc13dbecf1b30acb6bc89170cb5489b9cca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 24/53] fix: save and restore the vector potential with the
 simulation state (saving crashed on a removed attribute, reloading replaced
 it by phi)

---
 buildup_simulation.py |  6 ------
 pyecloud_saver.py     | 20 --------------------
 2 files changed, 26 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..3dae28b 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -515,12 +515,6 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
-
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 85e8ba1..034da6e 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -959,19 +959,6 @@ class pyecloud_saver:
             spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
-
             # remove savers
             temp_saver_list = []
             for cloud in cloud_list:
@@ -1001,13 +988,6 @@ class pyecloud_saver:
 
             spacech_ele.PyPICobj.luobj = temp_luobj
 
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
-
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-- 
2.43.0


From cb35452a13af6c81a0490753c1aab7993c6a9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 25/53] fix: save and restore the cross-ionization state
 (resumed runs started again from the initial target densities)

---
 buildup_simulation.py |  3 +++
 pyecloud_saver.py     | 15 ++++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 3dae28b..fda222a 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -492,6 +492,9 @@ class BuildupSimulation(object):
 
         self.flag_multiple_clouds = dict_state["flag_multiple_clouds"]
 
+        if dict_state.get("cross_ion") is not None:
+            self.cross_ion = dict_state["cross_ion"]
+
         for i_cloud, new_cloud in enumerate(self.cloud_list):
             new_pyeclsaver = new_cloud.pyeclsaver
             self.cloud_list[i_cloud] = dict_state["cloud_list"][
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 034da6e..d3cf1c0 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -268,7 +268,7 @@ class pyecloud_saver:
 
         # Check for simulation save state
         self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
@@ -312,7 +312,7 @@ class pyecloud_saver:
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                  sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                                  sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
             self._copy_main_outp_save(beamtim)
 
@@ -525,7 +525,7 @@ class pyecloud_saver:
                 os.makedirs(self.checkpoint_folder)
 
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                         sec_beams_list, flag_multiple_clouds, cloud_list):
+                         sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
@@ -533,7 +533,7 @@ class pyecloud_saver:
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -951,7 +951,7 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None):
 
         if self.flag_last_cloud:
 
@@ -973,6 +973,7 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
+                'cross_ion': cross_ion,
                 't_last_En_hist': self.t_last_En_hist}
 
             if self.flag_lifetime_hist:
@@ -991,7 +992,7 @@ class pyecloud_saver:
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                        sec_beams_list, flag_multiple_clouds, cloud_list):
+                        sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         #Simulation state save
         if self.flag_save_simulation_state:
             if self.i_obs_sim < self.N_obs_sim:
@@ -1000,7 +1001,7 @@ class pyecloud_saver:
                     outpath = self.folder_outp + '/' + filename_simulation_state
 
                     self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                     self.i_obs_sim = self.i_obs_sim + 1
 
-- 
2.43.0


From 13753e8427e1e221af03f901a04f48a27bcc022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 26/53] fix: complete the saved time step when reloading a
 state (its cleaning and regeneration were skipped)

---
 buildup_simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index fda222a..5285f11 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -518,6 +518,12 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
+        # The state is saved at the end of a time step, just before cleaning and
+        # regeneration: complete that step
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
+
         print("Done reload.")
         return dict_state
 
-- 
2.43.0


From c3be40cc7d6a042120e7195eab62e828124bb750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 27/53] fix: accept checkpoint and state folders without a
 trailing slash (checkpoints went elsewhere and were not found at restart)

---
 buildup_simulation.py | 6 ++++--
 pyecloud_saver.py     | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 5285f11..22449f2 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -481,7 +481,9 @@ class BuildupSimulation(object):
         load_from_folder="./",
     ):  # , reset_pyeclsaver = True):
 
-        with open(load_from_folder + filename_simulation_state, "rb") as fid:
+        with open(
+            os.path.join(load_from_folder, filename_simulation_state), "rb"
+        ) as fid:
             dict_state = pickle.load(fid)
 
         self.beamtim = dict_state["beamtim"]
@@ -531,7 +533,7 @@ class BuildupSimulation(object):
         print(
             (
                 "Reloading from checkpoint: %s..."
-                % (load_from_folder + filename_simulation_checkpoint)
+                % os.path.join(load_from_folder, filename_simulation_checkpoint)
             )
         )
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index d3cf1c0..c90bc54 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -530,7 +530,7 @@ class pyecloud_saver:
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                             sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
@@ -539,7 +539,7 @@ class pyecloud_saver:
 
                 if self.i_checkp > 0:
                     if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
+                        prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1))
                         os.remove(prevpath)
                         print('Removed simulation checkpoint in: ' + prevpath)
 
-- 
2.43.0


From f568e5592e031359739c400edaa57cf937bf4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 28/53] fix: take checkpoints atomically and restart from the
 latest complete one (a crash left partial or several checkpoints that blocked
 the restart)

---
 buildup_simulation.py | 12 +++++-------
 pyecloud_saver.py     | 26 ++++++++++++++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 22449f2..cd2000a 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -54,6 +54,7 @@
 
 
 from . import init as init
+from .pyecloud_saver import list_checkpoints
 import pickle
 import numpy as np
 import os
@@ -113,20 +114,17 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                found_checkpoints = list_checkpoints(self.checkpoint_folder)
+                if len(found_checkpoints) > 0:
                     print("Loading from checkpoint...")
                     # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    checkpoint = "simulation_checkpoint_%d.pkl" % found_checkpoints[-1]
                     self.load_checkpoint(
                         filename_simulation_checkpoint=checkpoint,
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index c90bc54..146cf90 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -54,6 +54,7 @@
 import scipy.io as sio
 import numpy as np
 import os
+import re
 import subprocess
 from . import hist_for as histf
 import time
@@ -68,6 +69,12 @@ except ImportError:
     import pickle
 
 
+def list_checkpoints(folder):
+    # Sorted numbers of the (complete) checkpoints found in a folder
+    matches = [re.match(r'simulation_checkpoint_(\d+)\.pkl$', nn) for nn in os.listdir(folder)]
+    return sorted([int(mm.group(1)) for mm in matches if mm is not None])
+
+
 class pyecloud_saver:
 
     def __init__(self, logfile_path):
@@ -537,11 +544,13 @@ class pyecloud_saver:
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-                if self.i_checkp > 0:
-                    if self.flag_last_cloud:
-                        prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1))
-                        os.remove(prevpath)
-                        print('Removed simulation checkpoint in: ' + prevpath)
+                if self.flag_last_cloud:
+                    # Remove all older checkpoints
+                    for i_prev in list_checkpoints(self.checkpoint_folder):
+                        if i_prev < self.i_checkp:
+                            prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%i_prev)
+                            os.remove(prevpath)
+                            print('Removed simulation checkpoint in: ' + prevpath)
 
                 self.i_checkp += 1
                 self.t_last_checkp = beamtim.tt_curr
@@ -979,9 +988,14 @@ class pyecloud_saver:
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
-            with open(outfile, 'wb') as fid:
+            # Write to a temporary file first, so that a file with the final
+            # name is always complete
+            with open(outfile + '.tmp', 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
+                fid.flush()
+                os.fsync(fid.fileno())
+            os.replace(outfile + '.tmp', outfile)
 
             # put back savers
             for cloud, saver in zip(cloud_list, temp_saver_list):
-- 
2.43.0


From 04dd669ad73e6a2867dea2ebecfc6fc9c49ef675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 29/53] fix: keep what was recorded in the checkpoint itself
 (histories rebuilt from the output file lost samples, accumulators and whole
 quantities)

---
 buildup_simulation.py |   5 +-
 pyecloud_saver.py     | 157 +++++++++---------------------------------
 2 files changed, 36 insertions(+), 126 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index cd2000a..699468d 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -543,8 +543,7 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
-            cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+        for cloud, recorded_data in zip(self.cloud_list, dict_state["recorded_data"]):
+            cloud.pyeclsaver.set_recorded_data(recorded_data)
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
-            cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 146cf90..754ab3c 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -59,7 +59,6 @@ import subprocess
 from . import hist_for as histf
 import time
 from scipy.constants import e as qe
-from . import myloadmat_to_obj as mlm
 import shutil
 try:
     # cPickle is faster in python2
@@ -582,124 +581,39 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-    def load_from_output(self, last_t=None):
-
-        if self.step_by_step_custom_observables is not None:
-            raise ValueError('Not implemented! Sorry!')
-
-        if self.copy_main_outp_folder is not None:
-            load_output_folder = self.copy_main_outp_folder
-        else:
-            load_output_folder = self.folder_outp
-
-        # restore the Pyecltest.mat up to last t
-        ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
-        dict_history = mlm.obj_to_dict(ob)
-
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
-
-        # Delete everything in Pyecltest.mat recorded after the last checkpoint
-        saved_every_timestep_list = ['En_emit_eV_time',
-                                     'En_imp_eV_time',
-                                     'En_kin_eV_time',
-                                     'Nel_emit_time',
-                                     'Nel_imp_time',
-                                     'Nel_timep',
-                                     'cen_density',
-                                     'lam_t_array',
-                                     'N_mp_time',
-                                     'nel_mp_ref_time',
-                                     'Nel_cross_ion',
-                                     'N_mp_cross_ion',
-                                     'DN_cross_ion',
-                                     'En_electric_eV_time',
-                                     't']
-
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
-                                    'N_mp_impact_pass',
-                                    'N_mp_pass',
-                                    'N_mp_ref_pass',
-                                    'energ_eV_impact_hist',
-                                    'energ_eV_impact_seg',
-                                    'nel_hist',
-                                    'nel_hist_det',
-                                    'nel_hist_impact_seg',
-                                    'nel_hist_emit_seg',
-                                    'nel_impact_hist_scrub',
-                                    'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
-
-        not_time_dependent_list = ['xg_hist',
-                                   'xg_hist_det',
-                                   'En_g_hist',
-                                   'b_spac',
-                                   't_sec_beams',
-                                   'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
-                                   'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
-                                   'dec_fact_out',
-                                   'chamber_area',
-                                   'sey_test_del_true_mat',
-                                   'sey_test_E_impact_eV',
-                                   'sey_test_del_elast_mat',
-                                   'del_rediff_mat',
-                                   'sey_test_cos_theta',
-                                   'ene_dist_test_cos_theta',
-                                   'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
-                                   ]
-
-        if self.flag_lifetime_hist:
-            not_time_dependent_list.append('lifetime_g_hist')
-
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
-        dict_restored = {}
-        for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
-
-        for var in not_time_dependent_list:
-            if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
-
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
-
-        # Restore this pyecloud_saver object with values from dict_restored
-        for var in list(dict_restored.keys()):
-            setattr(self, var, dict_restored[var])
+    # Members holding what was recorded so far
+    _list_recorded_data = [
+        # step by step
+        'i_last_save', 't_last_save',
+        'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+        'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV',
+        't', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time',
+        'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'cen_density',
+        'N_mp_time', 'nel_mp_ref_time',
+        'Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion',
+        'En_electric_eV_time', 'el_dens_at_probes', 'sbs_custom_data',
+        't_sc_video', 'U_sc_eV',
+        # pass by pass
+        't_hist', 'nel_hist', 'nel_hist_det',
+        'nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist',
+        'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg',
+        'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass',
+        'pbp_custom_data',
+        # energy, angle and lifetime histograms
+        't_last_En_hist', 't_En_hist', 'En_hist', 'En_hist_seg', 'all_Ekin_hist',
+        'cos_angle_hist', 't_last_lifetime_hist', 't_lifetime_hist', 'lifetime_hist',
+        # movies
+        'rho_video', 't_video', 'rho_video_cloud', 't_video_cloud',
+        'efx_video', 'efy_video', 't_efield_video',
+        # indices and times of the next MP state, simulation state and output copy
+        'i_obs', 'i_obs_sim', 't_last_copy']
+
+    def get_recorded_data(self):
+        return {nn: getattr(self, nn) for nn in self._list_recorded_data if hasattr(self, nn)}
+
+    def set_recorded_data(self, recorded_data):
+        for nn in recorded_data:
+            setattr(self, nn, recorded_data[nn])
 
     def _stepbystep_check_for_data_resize(self):
         if self.i_last_save >= (len(self.t) - 1):
@@ -983,10 +897,7 @@ class pyecloud_saver:
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
                 'cross_ion': cross_ion,
-                't_last_En_hist': self.t_last_En_hist}
-
-            if self.flag_lifetime_hist:
-                dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
+                'recorded_data': [saver.get_recorded_data() for saver in temp_saver_list]}
 
             # Write to a temporary file first, so that a file with the final
             # name is always complete
-- 
2.43.0


From 15939064a00e8f51359c2e99fe846ad2e46905b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 30/53] fix: reload states saved with the staircase solver (it
 has no build_sparse_solver)

---
 buildup_simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 699468d..caf6acf 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -484,6 +484,7 @@ class BuildupSimulation(object):
         ) as fid:
             dict_state = pickle.load(fid)
 
+        new_PyPICobj = self.spacech_ele.PyPICobj
         self.beamtim = dict_state["beamtim"]
         self.spacech_ele = dict_state["spacech_ele"]
         self.t_sc_ON = dict_state["t_sc_ON"]
@@ -516,7 +517,11 @@ class BuildupSimulation(object):
                 )
 
         print("Restoring PyPIC LU object...")
-        self.spacech_ele.PyPICobj.build_sparse_solver()
+        if hasattr(self.spacech_ele.PyPICobj, "build_sparse_solver"):
+            self.spacech_ele.PyPICobj.build_sparse_solver()
+        else:
+            # Solver that cannot be rebuilt, take it from the simulation just built
+            self.spacech_ele.PyPICobj.luobj = new_PyPICobj.luobj
 
         # The state is saved at the end of a time step, just before cleaning and
         # regeneration: complete that step
-- 
2.43.0


From 1b59bbf1e285edfed833741694a4dd66a88328a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 31/53] fix: copy the main output only once it exists (with
 save_mat_every > 1 the first copy crashed the run)

---
 pyecloud_saver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 754ab3c..4827673 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -555,7 +555,9 @@ class pyecloud_saver:
                 self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
-        shutil.copy(self.filen_main_outp, outpath)
+        # The file does not exist yet if nothing was saved so far
+        if os.path.isfile(self.filen_main_outp):
+            shutil.copy(self.filen_main_outp, outpath)
         self.t_last_copy = beamtim.tt_curr
 
     def _copy_main_outp_init(self, copy_main_outp_DT, copy_main_outp_folder):
-- 
2.43.0


From 9453ea339067d8ac23e955620ebf26af7ff5a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 32/53] fix: track and save with the time step of the beam
 profile (the input Dt, announced as ignored, was used)

---
 init.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 0d3ad53..ff81de9 100644
--- a/init.py
+++ b/init.py
@@ -265,6 +265,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
         beamtim = None
         sec_beams_list = []
 
+    # A uniform beam profile loaded from file defines the time step
+    Dt = cc.Dt if beamtim is None else beamtim.Dt
+
     # Init spacecharge
     if skip_spacech_ele:
         spacech_ele_sim = None
@@ -457,7 +460,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
         # Real saver init
         if not skip_pyeclsaver:
             flag_last_cloud = cloud_par is cloud_par_list[-1]
-            pyeclsaver.start_observing(cc.Dt, MP_e, beamtim, impact_man,
+            pyeclsaver.start_observing(Dt, MP_e, beamtim, impact_man,
                                        thiscloud.r_center, thiscloud.Dt_En_hist, thiscloud.logfile_path, thiscloud.progress_path,
                                        flag_detailed_MP_info=thiscloud.flag_detailed_MP_info, flag_movie=thiscloud.flag_movie,
                                        flag_sc_movie=thiscloud.flag_sc_movie, save_mp_state_time_file=thiscloud.save_mp_state_time_file,
@@ -493,7 +496,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
             temp_B0z = {True: 0., False: cc.B0z}[cc.B0z is None]
 
-            dynamics = dynB.pusher_Boris(cc.Dt, temp_B0x, temp_B0y, temp_B0z,
+            dynamics = dynB.pusher_Boris(Dt, temp_B0x, temp_B0y, temp_B0z,
                                          cc.B_map_file, cc.fact_Bmap, N_sub_steps=thiscloud.N_sub_steps)
         elif cc.track_method == 'StrongBdip':
             if cc.flag_em_tracking == True:
@@ -505,17 +508,17 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 B = 2 * np.pi * b_par.beta_rel * b_par.energy_J / (c * qe * cc.bm_totlen)
             else:
                 B = cc.B
-            dynamics = dyndip.pusher_dipole_magnet(cc.Dt, B)
+            dynamics = dyndip.pusher_dipole_magnet(Dt, B)
         elif cc.track_method == 'StrongBgen':
             if cc.flag_em_tracking == True:
                 raise ValueError("Track_method should be 'BorisMultipole' to use electromagnetic space charge!!")
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
-            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
+            dynamics = dyngen.pusher_strong_B_generalized(Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 36215774868f8dcc2c2ca481596ca86ad99493a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 33/53] fix: accept files with a single saving time (the MP
 state was silently not saved)

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 4827673..ad14a32 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -833,7 +833,7 @@ class pyecloud_saver:
             self.flag_save_MP_state = True
             if type(save_mp_state_time_file) is str:
                 dict_save_mp_state_time = sio.loadmat(save_mp_state_time_file)
-                self.t_obs = np.squeeze(dict_save_mp_state_time['t_obs'].real)
+                self.t_obs = np.atleast_1d(np.squeeze(dict_save_mp_state_time['t_obs'].real))
             else:
                 self.t_obs = np.array(save_mp_state_time_file)
 
@@ -868,7 +868,7 @@ class pyecloud_saver:
             self.flag_save_simulation_state = True
             if type(save_simulation_state_time_file) is str:
                 dict_save_simulation_state_time = sio.loadmat(save_simulation_state_time_file)
-                self.t_obs_sim = np.squeeze(dict_save_simulation_state_time['t_obs'].real)
+                self.t_obs_sim = np.atleast_1d(np.squeeze(dict_save_simulation_state_time['t_obs'].real))
             else:
                 self.t_obs_sim = np.array(save_simulation_state_time_file)
 
-- 
2.43.0


From 11dc9523f3cc2458996d5c96420c8235c0d94e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 34/53] fix: remember in the checkpoint the output copy made
 with it (the next copy of a resumed run came at another time)

---
 pyecloud_saver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index ad14a32..ba1b868 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -538,11 +538,13 @@ class pyecloud_saver:
 
                 outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
-                self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
+                # Before saving the state, which includes the time of this copy
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
+                self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
+
                 if self.flag_last_cloud:
                     # Remove all older checkpoints
                     for i_prev in list_checkpoints(self.checkpoint_folder):
-- 
2.43.0


From b4ca9242c60e4b105035274b53e49d13d897b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 35/53] fix: pad the normal and skew multipole components to
 the same number (a skew component without a normal one was ignored, lists of
 different length crashed or were broadcast)

---
 dynamics_Boris_multipole.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dynamics_Boris_multipole.py b/dynamics_Boris_multipole.py
index e024762..1e36c9a 100644
--- a/dynamics_Boris_multipole.py
+++ b/dynamics_Boris_multipole.py
@@ -68,17 +68,21 @@ class pusher_Boris_multipole():
         else:
             self.Dtt = Dt / float(N_sub_steps)
 
-        if B_multip is None or len(B_multip) == 0:
-            B_multip = np.array([0.], dtype=float)
+        if B_multip is None:
+            B_multip = []
+        if B_skew is None:
+            B_skew = []
+
+        # The same number of normal and skew components (at least one)
+        N_multipoles = max(len(B_multip), len(B_skew), 1)
+        B_multip = list(B_multip) + [0.] * (N_multipoles - len(B_multip))
+        B_skew = list(B_skew) + [0.] * (N_multipoles - len(B_skew))
 
         # B_multip are derivatives of B_field
         # B_field are field strengths at x=1 m, y=0
-        factorial = np.array([math.factorial(ii) for ii in range(len(B_multip))], dtype=float)
+        factorial = np.array([math.factorial(ii) for ii in range(N_multipoles)], dtype=float)
         self.B_field = np.array(B_multip, dtype=float) / factorial
-        if B_skew is None:
-            self.B_field_skew = np.zeros_like(self.B_field, dtype=float)
-        else:
-            self.B_field_skew = np.array(B_skew, dtype=float) / factorial
+        self.B_field_skew = np.array(B_skew, dtype=float) / factorial
 
         self.B0x = B0x
         self.B0y = B0y
-- 
2.43.0


From 4a1b621d5c0a2e6f371ffd63ad0fd8c79d45125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 36/53] fix: compare the name of the analytic quadrupole by
 value, not by identity

---
 dynamics_strong_B_generalized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 3abcf84..15b2dfa 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file is 'analytic_qaudrupole_unit_grad':
+        elif B_map_file == 'analytic_qaudrupole_unit_grad':
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From 2dbc3dc50fdd8c200eb1c14109421cb1e6574221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 37/53] fix: move the particles also in time steps shorter than
 half the reference step (they stood still)

---
 buildup_simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index caf6acf..503e4f5 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -318,7 +318,8 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            # at least one, also for time steps much shorter than the reference one
+            N_substeps_curr = max(1, int(np.round(beamtim.Dt_curr / Dt_substep_target)))
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From c089b1bb2ba05f44e4b89faf62a9ec11335a656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 38/53] fix: save the actual bins of the angle histogram (wrong
 when 1/cos_angle_width is not an integer)

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index ba1b868..339a0f3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1065,7 +1065,7 @@ class pyecloud_saver:
         if flag_cos_angle_hist:
             N_angles = int(1. / cos_angle_width) + 1
             self.cos_angle_hist = []
-            self.xg_hist_cos_angle = np.linspace(0., 1., N_angles)
+            self.xg_hist_cos_angle = cos_angle_width * np.arange(N_angles)
         else:
             self.cos_angle_hist = -1
             self.xg_hist_cos_angle = -1
-- 
2.43.0


From 1beb4d78affce20cd146698f19602d1bb6b27765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 39/53] fix: accept the documented spelling
 analytic_quadrupole_unit_grad for the analytic quadrupole

---
 dynamics_Boris_f2py.py           | 2 +-
 dynamics_strong_B_generalized.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamics_Boris_f2py.py b/dynamics_Boris_f2py.py
index 1f30fa3..57759a2 100644
--- a/dynamics_Boris_f2py.py
+++ b/dynamics_Boris_f2py.py
@@ -152,7 +152,7 @@ class pusher_Boris():
         if B_map_file is None:
             self.B_ob = B_none(B0x, B0y, B0z)
 
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.B_ob = B_quad(B0x, B0y, B0z, fact_Bmap)
 
diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 15b2dfa..d766bd6 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From ff3556bca8c65c52ef32a448316a7bec1ae96c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 40/53] fix: unspecified B0x and B0y are zero with track_method
 StrongBgen too (TypeError before)

---
 init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index ff81de9..f9e86a9 100644
--- a/init.py
+++ b/init.py
@@ -515,7 +515,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
-            dynamics = dyngen.pusher_strong_B_generalized(Dt, cc.B0x, cc.B0y,
+            temp_B0x = {True: 0., False: cc.B0x}[cc.B0x is None]
+            temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
+            dynamics = dyngen.pusher_strong_B_generalized(Dt, temp_B0x, temp_B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
             dynamics = dynmul.pusher_Boris_multipole(Dt=Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
-- 
2.43.0


From bd6fc201879a1755c973ad73cec9464e89f47912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 41/53] fix: read the input files named by keyword arguments
 (machine_param_file and secondary_emission_parameters_file were ignored)

---
 init.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/init.py b/init.py
index f9e86a9..ad3b800 100644
--- a/init.py
+++ b/init.py
@@ -92,16 +92,18 @@ from . import input_parameters_format_specification as inp_spec
 from . import cloud_manager as cman
 from . import cross_ionization as cion
 
-def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False):
+def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False, override_filenames=None):
     simulation_param_file = 'simulation_parameters.input'
 
     # Parse simulation_parameters.input
     input_parameters = inp_spec.import_module_from_file('simulation_parameters', os.path.join(pyecl_input_folder, simulation_param_file))
 
-    # Get names of other input files
-    machine_param_file = input_parameters.machine_param_file
-    secondary_emission_parameters_file = input_parameters.secondary_emission_parameters_file
-    beam_parameters_file = input_parameters.beam_parameters_file
+    # Get names of other input files (they can be overridden)
+    if override_filenames is None:
+        override_filenames = {}
+    machine_param_file = override_filenames.get('machine_param_file', input_parameters.machine_param_file)
+    secondary_emission_parameters_file = override_filenames.get('secondary_emission_parameters_file', input_parameters.secondary_emission_parameters_file)
+    beam_parameters_file = override_filenames.get('beam_parameters_file', input_parameters.beam_parameters_file)
 
     # Parse other input files
     machine_parameters = inp_spec.import_module_from_file('machine_parameters', os.path.join(pyecl_input_folder, machine_param_file))
@@ -130,7 +132,13 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          spacech_ele=None,
                                          ignore_kwargs=(), **kwargs):
 
-    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam)
+    # Names of input files given as kwargs
+    override_filenames = {}
+    for attr in ('machine_param_file', 'secondary_emission_parameters_file', 'beam_parameters_file'):
+        if attr in kwargs and attr not in ignore_kwargs:
+            override_filenames[attr] = kwargs[attr]
+
+    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam, override_filenames=override_filenames)
     # Override config values with kwargs
     for attr, value in list(kwargs.items()):
         if attr in ignore_kwargs:
-- 
2.43.0


From 2172f8e2f16cc07004f3e7b541c39181e027e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 42/53] fix: names and defaults of parameters in the reference
 manual

---
 doc/reference/src/reference.tex | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/doc/reference/src/reference.tex b/doc/reference/src/reference.tex
index 2d88b91..6aef9f0 100644
--- a/doc/reference/src/reference.tex
+++ b/doc/reference/src/reference.tex
@@ -119,7 +119,7 @@ This input file has to be named \textbf{simulation\_parameters.input}.
 In the presence of secondary beams, the master beam determines the length of the simulation, the energy used for the calculation of the bending field, and the bunch spacing used for regeneration and saving purposes.
 }\\
 \hline
-\textbf{secondary\_beam\_file\_list} & (optional -- default = []) \newline List of names of secondary beam parameter files.\\
+\textbf{secondary\_beams\_file\_list} & (optional -- default = []) \newline List of names of secondary beam parameter files.\\
 \hline
 \end{longtable}
 
@@ -262,7 +262,7 @@ Parameters for asynchronous soft regeneration (the simulation does not wait for
 \textbf{flag\_detailed\_MP\_info}&	(optional -- default=0)
 
 (1 $\Rightarrow$ On, 0 $\Rightarrow$ Off) Enables save of MP number at each time step.\\ \hline
-\textbf{flag\_hist\_impact\_seg}&	(optional -- default=0)
+\textbf{flag\_hist\_impact\_seg}&	(optional -- default=1)
 
 (1 $\Rightarrow$ On, 0 $\Rightarrow$ Off) If the chamber is a polygon, enables saving the number of electrons which impacts onto each segment of polygon.\\ \hline
 \textbf{flag\_verbose\_file, flag\_verbose\_stdout}&	(optional -- default=False)
@@ -365,7 +365,6 @@ Possible settings:
     The chamber file must also contain the cumulative distribution function of the emission probability for each segment.
     The vertexes of this chamber must lie on the edges of the main chamber.\\ \hline
     \textbf{flag\_assume\_convex} & [optional] Default: True \\\hline
-    \textbf{flag\_counter\_clockwise\_chamb} & [optional] Default: True. Only needed for the photoemission model 'per\_segment'. It specifies the order in which the vertexes are defined. \\\hline
 \end{longtable}
 
 
@@ -411,7 +410,7 @@ Scaling factor applied to the magnetic field map.
 \textbf{B0x, B0y, B0z} & (optional -- default = 0) \newline
 [T] Uniform magnetic fields added to the map.
 \\ \hline
-\textbf{B\_zero\_thrld} & [T] Value below which the local magnetic field is approximated with 0.
+\textbf{B\_zero\_thrhld} & [T] Value below which the local magnetic field is approximated with 0.
 \\ \hline
 \multicolumn{2}{p{.97\textwidth}}{When track\_method = `BorisMultipole', N\_sub\_steps and B\_multip must be provided, while B\_skew is optional:}\\ \hline
 \textbf{N\_sub\_steps} & Number of tracking sub-steps per time step.\\ \hline
@@ -493,7 +492,7 @@ The Lorentz and normal distributions are cut at 0 to prevent negative energies o
 \\ \hline
 \textbf{out\_radius} & [m] Radius of a circle external to the chamber.
 \\ \hline
-\textbf{phem\_resc\_fact} & Rescaling factor on the position vector of the generated photoelectrons.
+\textbf{phem\_resc\_fac} & Rescaling factor on the position vector of the generated photoelectrons.
 \\
 \hline
 \textbf{photoelectron\_angle\_distribution} & See secondary\_angle\_distribution in the secondary emission parameters.
-- 
2.43.0


From 485452c3d315543762240171563d40f00c3c3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 43/53] fix: the first slice in PyEC4PyHT sees the field of the
 reinitialized cloud (not the field left by the previous turn or by a twin)

---
 PyEC4PyHT.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..66684da 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -599,6 +599,16 @@ class Ecloud(object):
 
             # print(dummybeamtim.tt_curr, dummybeamtim.flag_new_bunch_pass, force_recompute_space_charge)
 
+            # The field in the PIC is not the one of this cloud after a reinitialization
+            # or if another cloud has used the same PIC in the meantime
+            if getattr(spacech_ele, "field_owner", None) is not self:
+                self.cloudsim._recompute_cloud_spacecharge(
+                    dummybeamtim,
+                    flag_recompute_space_charge=False,
+                    force_recompute_space_charge=True,
+                )
+                spacech_ele.field_owner = self
+
             # Perform cloud simulation step
             self.cloudsim.sim_time_step(
                 beamtim_obj=dummybeamtim,
@@ -792,6 +802,9 @@ class Ecloud(object):
             self.Ex_ele_last_track_at_probes = []
             self.Ey_ele_last_track_at_probes = []
 
+        # the state of the cloud has changed, the field in the PIC needs to be updated
+        self.cloudsim.spacech_ele.field_owner = None
+
         # ~ self.t_sim = 0.
         self.i_curr_bunch = -1
         self.i_reinit += 1
-- 
2.43.0


From d1f79e43fd1be55f589f830799a108289f0b1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 44/53] fix: slices of the frozen field map (each slice was
 kicked with the field of the next one)

---
 Transverse_Efield_map_for_frozen_cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..70f8a76 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -47,8 +47,8 @@ class Transverse_Efield_map(object):
 
             sid -= 1
 
-            # select particles in the slice
-            pid = slices.particle_indices_of_slice(sid)
+            # select particles in the slice (it does not accept negative indices)
+            pid = slices.particle_indices_of_slice(slices.n_slices + sid)
 
             # slice size
             dz = (slices.z_bins[sid + 1] - slices.z_bins[sid])
-- 
2.43.0


From 790c0104925a8b6f078ea2d9048155ed55a42291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 45/53] fix: enable_kick_x and enable_kick_y hold for the
 frozen field map too

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 66684da..cc331fc 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -448,6 +448,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index 70f8a76..3e5936d 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -74,8 +78,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0


From 34682ae50b222ff4b8dad6a0adce1b8060d7d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 46/53] fix: frozen field map slice by slice: slices that do
 not interact get no kick, one field per slice (also for long slices)

---
 PyEC4PyHT.py                              | 10 ++++++++--
 Transverse_Efield_map_for_frozen_cloud.py |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index cc331fc..7db9370 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -440,8 +440,9 @@ class Ecloud(object):
             self.efieldmap = Transverse_Efield_map(
                 xg=self.spacech_ele.xg,
                 yg=self.spacech_ele.yg,
-                Ex=self.Ex_ele_last_track,
-                Ey=self.Ey_ele_last_track,
+                # one map per slice (long slices are simulated in several steps)
+                Ex=self.Ex_ele_last_track[self.slice_end_last_track],
+                Ey=self.Ey_ele_last_track[self.slice_end_last_track],
                 L_interaction=self.L_ecloud,
                 slicer=self.slicer,
                 flag_clean_slices=True,
@@ -657,6 +658,7 @@ class Ecloud(object):
             if self.save_ele_field:
                 self.Ex_ele_last_track.append(spacech_ele.efx.copy())
                 self.Ey_ele_last_track.append(spacech_ele.efy.copy())
+                self.slice_end_last_track.append(i_clou_step == len(dt_array) - 1)
 
             if self.save_beam_distributions_last_track:
                 self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
@@ -767,6 +769,7 @@ class Ecloud(object):
         if self.save_ele_field:
             self.Ex_ele_last_track = []
             self.Ey_ele_last_track = []
+            self.slice_end_last_track = []
 
         if self.save_beam_distributions_last_track:
             self.rho_beam_last_track = []
@@ -822,6 +825,9 @@ class Ecloud(object):
         if self.save_ele_field:
             self.Ex_ele_last_track = np.array(self.Ex_ele_last_track[::-1])
             self.Ey_ele_last_track = np.array(self.Ey_ele_last_track[::-1])
+            self.slice_end_last_track = np.array(
+                self.slice_end_last_track[::-1], dtype=bool
+            )
 
         if self.save_beam_distributions_last_track:
             self.rho_beam_last_track = np.array(self.rho_beam_last_track[::-1])
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index 3e5936d..75c879b 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -87,7 +87,8 @@ class Transverse_Efield_map(object):
 
         if beam.slice_info != 'unsliced':
             self.sid -= 1
-            self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
+            if beam.slice_info.get('interact_with_EC', True):
+                self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
 
     def _finalize_and_reinitialize(self):
         self.sid = 0
-- 
2.43.0


From 5b32a6625f47b2094e381bcd0c271b11caaa9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 47/53] fix: PyEC4PyHT records zero beam density and field for
 slices without beam (not those of the last slice)

---
 PyEC4PyHT.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 7db9370..b8ab33e 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -649,6 +649,9 @@ class Ecloud(object):
             ## Diagnostics
             MPe_for_save = self.cloudsim.cloud_list[0].MP_e
 
+            # zero fields are recorded without beam (the state keeps the last ones computed)
+            beam_present = 0.0 if dummybeamtim.PyPIC_state is None else 1.0
+
             if self.save_ele_distributions_last_track:
                 self.rho_ele_last_track.append(spacech_ele.rho.copy())
 
@@ -661,14 +664,14 @@ class Ecloud(object):
                 self.slice_end_last_track.append(i_clou_step == len(dt_array) - 1)
 
             if self.save_beam_distributions_last_track:
-                self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
+                self.rho_beam_last_track.append(beam_present * self.beam_PyPIC_state.rho)
 
             if self.save_beam_potential:
-                self.phi_beam_last_track.append(self.beam_PyPIC_state.phi.copy())
+                self.phi_beam_last_track.append(beam_present * self.beam_PyPIC_state.phi)
 
             if self.save_beam_field:
-                self.Ex_beam_last_track.append(self.beam_PyPIC_state.efx.copy())
-                self.Ey_beam_last_track.append(self.beam_PyPIC_state.efy.copy())
+                self.Ex_beam_last_track.append(beam_present * self.beam_PyPIC_state.efx)
+                self.Ey_beam_last_track.append(beam_present * self.beam_PyPIC_state.efy)
 
             if self.save_ele_MP_position:
                 self.x_MP_last_track.append(MPe_for_save.x_mp.copy())
-- 
2.43.0


From a69e73988808ce4a648364e3a72301359c5b0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 48/53] fix: the output options hold in PyEC4PyHT after the
 reinitialization of the cloud (custom observables, save_only, lifetime
 histogram, electric energy, save_mat_every)

---
 PyEC4PyHT.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index b8ab33e..ff90de6 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -744,12 +744,20 @@ class Ecloud(object):
                     Dx_hist_det=thisconf.Dx_hist_det,
                     dec_fact_out=cc.dec_fact_out,
                     stopfile=cc.stopfile,
+                    save_mat_every=cc.save_mat_every,
                     filen_main_outp=thisconf.filen_main_outp,
                     flag_cos_angle_hist=thisconf.flag_cos_angle_hist,
                     cos_angle_width=thisconf.cos_angle_width,
                     flag_multiple_clouds=(len(self.cloudsim.cloud_list) > 1),
                     cloud_name=thisconf.cloud_name,
                     flag_last_cloud=(thiscloud is self.cloudsim.cloud_list[-1]),
+                    step_by_step_custom_observables=cc.step_by_step_custom_observables,
+                    pass_by_pass_custom_observables=cc.pass_by_pass_custom_observables,
+                    save_once_custom_observables=cc.save_once_custom_observables,
+                    flag_lifetime_hist=thisconf.flag_lifetime_hist,
+                    Dt_lifetime_hist=thisconf.Dt_lifetime_hist,
+                    save_only=thisconf.save_only,
+                    flag_electric_energy=(cc.Dh_electric_energy is not None),
                 )
 
                 thiscloud.pyeclsaver.filen_main_outp = (
-- 
2.43.0


From e3daff18a3b3992254a3b472a10d5c59350282c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 49/53] fix: the files of PyEC4PyHT for a turn do not contain
 impacts of the previous turns

---
 PyEC4PyHT.py               |  3 +++
 impact_management_class.py | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index ff90de6..0d55b85 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -718,6 +718,9 @@ class Ecloud(object):
             thisconf = thiscloud.config_dict
 
             if thiscloud.pyeclsaver is not None:
+                # impacts before the reinitialization are not part of the new record
+                thiscloud.impact_man.reset_all_hist()
+
                 thiscloud.pyeclsaver.extract_sey = False
                 thiscloud.pyeclsaver.start_observing(
                     cc.Dt,
diff --git a/impact_management_class.py b/impact_management_class.py
index 775e8b4..e6f0f86 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -171,6 +171,22 @@ class impact_management(object):
     def reset_lifetime_hist_line(self):
         self.lifetime_hist_line *= 0.
 
+    def reset_all_hist(self):
+        self.reset_impact_hist_tot()
+        self.reset_impact_hist_scrub()
+        self.reset_energ_eV_impact_hist()
+        self.reset_En_hist_line()
+        if self.flag_cos_angle_hist:
+            self.reset_cos_angle_hist()
+        if self.flag_lifetime_hist:
+            self.reset_lifetime_hist_line()
+        if self.flag_seg:
+            self.reset_hist_impact_seg()
+            self.reset_hist_emit_seg()
+            self.reset_energ_impact_seg()
+            if self.flag_En_hist_seg:
+                self.reset_seg_En_hist_lines()
+
     # @profile
     def backtrack_and_second_emiss(self, old_pos, MP_e, tt_curr=None):
 
-- 
2.43.0


From f24769e3ec2b587932fb9e1f3bd3577b9294a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 50/53] fix: the number of impacts saved for a cloud does not
 contain the impacts of the other clouds

---
 impact_management_class.py | 9 +++++++++
 pyecloud_saver.py          | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index e6f0f86..9de130d 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -110,6 +110,9 @@ class impact_management(object):
         self.En_imp_last_step_eV = None
         self.En_emit_last_step_eV = None
 
+        self.N_mp_impact = 0
+        self.N_mp_corrected = 0
+
         self.nel_impact_hist_tot = np.zeros(Nxg_hist, float)
         self.nel_impact_hist_scrub = np.zeros(Nxg_hist, float)
         self.energ_eV_impact_hist = np.zeros(Nxg_hist, float)
@@ -246,10 +249,16 @@ class impact_management(object):
                 z_out = z_mp[flag_impact]
 
                 # backtracking and surface normal generation
+                N_mp_impact_before = chamb.N_mp_impact
+                N_mp_corrected_before = chamb.N_mp_corrected
                 [x_impact, y_impact, z_impact, Norm_x, Norm_y, i_found] =\
                     chamb.impact_point_and_normal(
                         x_in, y_in, z_in, x_out, y_out, z_out)
 
+                # the chamber is shared among the clouds
+                self.N_mp_impact += chamb.N_mp_impact - N_mp_impact_before
+                self.N_mp_corrected += chamb.N_mp_corrected - N_mp_corrected_before
+
                 # load velocities and charges
                 vx_impact = vx_mp[flag_impact]
                 vy_impact = vy_mp[flag_impact]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 339a0f3..f386091 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -410,8 +410,8 @@ class pyecloud_saver:
         self.energ_eV_impact_hist.append(impact_man.energ_eV_impact_hist.copy())
         impact_man.reset_energ_eV_impact_hist()
 
-        self.N_mp_impact_pass.append(impact_man.chamb.N_mp_impact)
-        self.N_mp_corrected_pass.append(impact_man.chamb.N_mp_corrected)
+        self.N_mp_impact_pass.append(impact_man.N_mp_impact)
+        self.N_mp_corrected_pass.append(impact_man.N_mp_corrected)
         self.N_mp_pass.append(MP_e.N_mp)
         self.N_mp_ref_pass.append(MP_e.nel_mp_ref)
 
-- 
2.43.0


From ff80717511c92f9810bf655500b6e8a632f0dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:32 +0000
Subject: [PATCH 51/53] fix: the velocity grid of the regeneration does not
 depend on particles that no longer exist

---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 60b5a38..6a8b50c 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -272,9 +272,9 @@ class MP_system:
 
             #Assign particle to grid
             #
-            vx_max = max(abs(self.vx_mp))
-            vy_max = max(abs(self.vy_mp))
-            vz_max = max(abs(self.vz_mp))
+            vx_max = np.max(abs(self.vx_mp[:self.N_mp]), initial=0.)
+            vy_max = np.max(abs(self.vy_mp[:self.N_mp]), initial=0.)
+            vz_max = np.max(abs(self.vz_mp[:self.N_mp]), initial=0.)
             if vx_max == 0:
                 vx_max = 1e-5
             if vy_max == 0:
-- 
2.43.0


From 8a8f687115c048f660af352c51e61faf68557dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 52/53] fix: image terms of the beam field in elliptic chambers
 taller than wide (were nan)

---
 BassErsk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..5c30821 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -48,7 +48,11 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
 
     eps0 = 8.854187817620e-12
 
-    if abs((a - b) / a) > 1e-3:
+    if (b - a) / a > 1e-3:
+        # the expansion holds for a > b, exchange the axes
+        Ey, Ex = ImageTerms(y, x, b, a, y0, x0, nimag)
+
+    elif abs((a - b) / a) > 1e-3:
         g = sqrt(a * a - b * b)
 
         z = x + 1j * y
-- 
2.43.0


From 78e7c4b0711ef1d15e6d5474c23dd169749f1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 53/53] fix: image terms of the beam field at the foci of the
 chamber (were nan)

---
 BassErsk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 5c30821..97a3eef 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -70,8 +70,11 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
         Ecpx = 0 + 0j
 
         q = conj(q)
+        sinh_q = sinh(q)
         for nn in range(1, nimag + 1):
-            Ecpx = Ecpx + exp(-nn * mu1) * ( (cosh(nn * mu0) * cos(nn * phi0)) / (cosh(nn * mu1)) + 1j * (sinh(nn * mu0) * sin(nn * phi0)) / (sinh(nn * mu1))   ) * (sinh(nn * q)) / (sinh(q))
+            # limit of the ratio at the focus of the chamber, where q = 0
+            ratio = sinh(nn * q) / sinh_q if sinh_q != 0 else nn
+            Ecpx = Ecpx + exp(-nn * mu1) * ( (cosh(nn * mu0) * cos(nn * phi0)) / (cosh(nn * mu1)) + 1j * (sinh(nn * mu0) * sin(nn * phi0)) / (sinh(nn * mu1))   ) * ratio
 
         Ecpx = Ecpx / (4 * pi * eps0) * 4 / g
         Ex = Ecpx.real
-- 
2.43.0

