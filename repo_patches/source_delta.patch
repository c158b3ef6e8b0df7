From 8fd71859577b5d35ebf2f25860f957f4bd8ceb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 01/29] fix: make_simulated_data honours the ref_rng keyword

---
 emc2/simulator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index 32f7e3b..e4a872d 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -171,7 +171,7 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
         # Radar Simulator
         if instrument.instrument_class.lower() == "radar":
             print("Generating radar moments...")
-            if 'reg_rng' in kwargs.keys():
+            if 'ref_rng' in kwargs.keys():
                 ref_rng = kwargs['ref_rng']
                 del kwargs['ref_rng']
             else:
-- 
2.43.0


From a57c4c6b067bbca337ce026a737d36ab9b56cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 02/29] fix: molecular lidar transmittance follows OD_from_sfc

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index fb06db6..66ef0a8 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -804,7 +804,7 @@ def calc_lidar_moments(instrument, model, is_conv,
     z_values = z_temp.to('meter').magnitude
     del p_temp, t_temp, z_temp
 
-    model = calc_theory_beta_m(model, instrument.wavelength)
+    model = calc_theory_beta_m(model, instrument.wavelength, OD_from_sfc=OD_from_sfc)
     beta_m = np.tile(model.ds['sigma_180_vol'].values, (model.num_subcolumns, 1, 1))
     T = np.tile(model.ds['tau'].values, (model.num_subcolumns, 1, 1))
 
-- 
2.43.0


From f40655624f334a3026d06ff210b47c30d871b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 03/29] fix: calc_LDR_and_ext uses the LDR_per_hyd it is given

---
 emc2/simulator/lidar_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 66ef0a8..bbef0b3 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -122,7 +122,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
 
         for hyd_type in hyd_types:
             beta_p_key = "sub_col_beta_p_%s_%s" % (hyd_type, cloud_str)
-            numerator += model.ds[beta_p_key].fillna(0) * model.LDR_per_hyd[hyd_type].magnitude
+            numerator += model.ds[beta_p_key].fillna(0) * getattr(
+                LDR_per_hyd[hyd_type], 'magnitude', LDR_per_hyd[hyd_type])
             denominator += model.ds[beta_p_key].fillna(0)
         denominator_no_zeros = np.where(denominator > 0, denominator, np.nan)
         model.ds["sub_col_LDR_%s" % cloud_str] = numerator / denominator_no_zeros
-- 
2.43.0


From 4f3520cbb440868f62d8c4d018c35572574907c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 04/29] fix: calc_LDR_and_ext works when hyd_types leaves out
 the model's first class

---
 emc2/simulator/lidar_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index bbef0b3..764617b 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -114,8 +114,8 @@ def calc_LDR_and_ext(model, ext_OD=4., OD_from_sfc=True, LDR_per_hyd=None, hyd_t
     else:
         OD_str = ("layer top", "from TOA")
 
-    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
-    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % model.hydrometeor_classes[0]])
+    numerator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
+    denominator_tot = xr.zeros_like(model.ds["sub_col_beta_p_%s_strat" % hyd_types[0]])
     for cloud_str in cld_classes:
         numerator = 0.
         denominator = 0.
-- 
2.43.0


From d8b3cecee4d07cc26100b6b8c6e0b5be588aea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 05/29] fix: bulk lidar/radar moments are not negative at the
 model top

---
 emc2/simulator/lidar_moments.py | 2 +-
 emc2/simulator/radar_moments.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 764617b..b12dfaf 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -365,7 +365,7 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
 
     rhoa_dz = np.tile(np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
                       (model.num_subcolumns, 1, 1))
-    dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))
+    dz = np.tile(np.abs(np.diff(z_values, axis=1, append=0.)), (model.num_subcolumns, 1, 1))
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
         if hyd_type[-1] == 'l':  # liquid hydrometeors
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 9cce000..f0a7375 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -309,7 +309,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
         np.abs(np.diff(p_values, axis=1, append=0.)) / instrument.g,
         (n_subcolumns, 1, 1))
     dz = np.tile(
-        np.diff(z_values, axis=1, append=0.), (n_subcolumns, 1, 1))
+        np.abs(np.diff(z_values, axis=1, append=0.)), (n_subcolumns, 1, 1))
 
     for hyd_type in hyd_types:
         rad_A = True  # calculate total surface area using classic derivation from r_eff and q_i
-- 
2.43.0


From e9275f55cd31deef9b161031acfb76c736ca3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 06/29] fix: chunked set_q_n processes every time step once and
 in order

---
 emc2/simulator/subcolumn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index 303666c..f018ebc 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -543,16 +543,16 @@ def set_q_n(model, hyd_type, is_conv=True, qc_flag=False, inv_rel_var=None, use_
                     my_tuple = tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
                 else:
                     my_tuple = []
-                    j = t_dim - 1
-                    while j >= 0:
-                        if j + chunk > t_dim:
+                    j = 0
+                    while j < t_dim:
+                        if j + chunk >= t_dim:
                             ind_max = t_dim
                         else:
                             ind_max = j + chunk
                         print("Stage 1 of 2: Processing columns %d-%d out of %d" % (j, ind_max, t_dim))
                         tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                         my_tuple += tt_bag.map(_distribute_cl_q_n_sub_cols).compute()
-                        j -= chunk
+                        j += chunk
             else:
                 my_tuple = [x for x in map(_distribute_cl_q_n_sub_cols, np.arange(0, t_dim, 1))]
 
-- 
2.43.0


From df2d69c9ed01146f8347b59ba74e133eaaf36c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 07/29] fix: set_q_n does not hang where the in-cloud liquid is
 zero

---
 emc2/simulator/subcolumn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f018ebc..f722bc3 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -767,7 +767,7 @@ def _distribute_cl_q_n(tt, sub_data_frac, inv_rel_var, N_columns, tot_hyd_in_sub
             while not valid_vals:  # Finding first index w/ random value sum > cell mean --> randomize up to there
                 counter_4_valid += 1
                 valid_vals = (q_ic_mean[tt, j] * tot_hyd_in_sub[tt, j] -
-                              rand_gamma_vals[:-counter_4_valid].sum()) > 0
+                              rand_gamma_vals[:-counter_4_valid].sum()) >= 0
             q_profs[hyd_in_sub_loc[randlocs[:-counter_4_valid]], j] = (
                 rand_gamma_vals[:-counter_4_valid])
             q_profs[hyd_in_sub_loc[randlocs[-counter_4_valid:]], j] = (
-- 
2.43.0


From adda3c615f22ec92d5f1d1f13226b159ba6bbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 08/29] fix: single-phase cloud keeps its full fraction under
 two-phase cloud

---
 emc2/simulator/subcolumn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index f722bc3..ef13958 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -631,8 +631,8 @@ def _allocate_strat_sub_col(tt, cld_2_assigns, I_min, I_max, conv_profs,
                     rand_locs = _randperm(overlying_num.min(), size=cld_2_assign[I_min])
                     inds = locals()["overlying_locs%d" % (Iover_min + 1)][rand_locs]
                     strat_profs[I_min, inds, j] = True
-                    inds = locals()["overlying_locs%d" % (Iover_min + 1)]
-                    strat_profs[I_max, inds, j] = True
+                inds = locals()["overlying_locs%d" % (Iover_min + 1)]
+                strat_profs[I_max, inds, j] = True
                 cld_2_assign[I_min] = 0
                 cld_2_assign[I_max] -= overlying_num[Iover_min]
 
-- 
2.43.0


From 5c2cd68d1333e40a8b5ad6ecd5d820e856c6a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 09/29] fix: microphysics totals do not add to those of an
 earlier simulation

---
 emc2/simulator/lidar_moments.py | 13 ++++++-------
 emc2/simulator/radar_moments.py | 14 ++++++--------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index b12dfaf..46b2e1b 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -580,18 +580,17 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
         raise ValueError(f"Unknown radiation scheme family: {model.rad_scheme_family}")
 
     Dims = model.ds["strat_q_subcolumns_cl"].values.shape
+    model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     for hyd_type in hyd_types:
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
         print(f"Generating strat lidar variables for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
-        if not np.isin("sub_col_beta_p_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_beta_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_alpha_p_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_OD_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_beta_p_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_alpha_p_%s_strat" % hyd_type] = xr.DataArray(
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index f0a7375..c38767b 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,20 +539,18 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
+    model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
+        np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
 
     for hyd_type in hyd_types:
         print(f"Generating strat radar moemnts for hyd class {hyd_type} "
               f"({model.rad_scheme_family} rad; {model.mcphys_scheme} mcphys; Mie={int(mie_for_ice)})")
         frac_names = "strat_frac_subcolumns_%s" % hyd_type
         n_names = "strat_n_subcolumns_%s" % hyd_type
-        if not np.isin("sub_col_Ze_tot_strat", [x for x in model.ds.keys()]):
-            model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-            model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(
-                np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
-
         model.ds["sub_col_Ze_%s_strat" % hyd_type] = xr.DataArray(
             np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
         model.ds["sub_col_Vd_%s_strat" % hyd_type] = xr.DataArray(
-- 
2.43.0


From deee1f3f943a7b2c9cec2b2737e78cbec0339ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 10/29] fix: radar microphysics attenuation sums over all
 hydrometeor classes

---
 emc2/simulator/radar_moments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index c38767b..d0fa46c 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -539,6 +539,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     moment_denom_tot = np.zeros(Dims)
     V_d_numer_tot = np.zeros(Dims)
     sigma_d_numer_tot = np.zeros(Dims)
+    hyd_ext = np.zeros(Dims)
     model.ds["sub_col_Ze_tot_strat"] = xr.DataArray(
         np.zeros(Dims), dims=model.ds.strat_q_subcolumns_cl.dims)
     model.ds["sub_col_Vd_tot_strat"] = xr.DataArray(
@@ -659,7 +660,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot = np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
             model.ds["sub_col_Ze_cl_strat"][:, :, :] = np.stack(
                 [x[3] for x in my_tuple], axis=1)
@@ -702,7 +703,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
 
             V_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in my_tuple], axis=1))
             moment_denom_tot += np.nan_to_num(np.stack([x[1] for x in my_tuple], axis=1))
-            hyd_ext = np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
+            hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
             model.ds["sub_col_Ze_%s_strat" % hyd_type][:, :, :] = np.stack([x[3] for x in my_tuple], axis=1)
             model.ds["sub_col_Vd_%s_strat" % hyd_type][:, :, :] = np.stack([x[4] for x in my_tuple], axis=1)
             if calc_spectral_width:
-- 
2.43.0


From 389c7be379ad2295d33f9e0b1c2d334d6ec8464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 11/29] fix: total Doppler moments do not depend on the order
 of the classes

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index d0fa46c..af34338 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -656,9 +656,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 my_tuple = [x for x in map(
                     _calc_liquid, np.arange(0, Dims[1], 1))]
             
-            V_d_numer_tot = np.nan_to_num(
+            V_d_numer_tot += np.nan_to_num(
                 np.stack([x[0] for x in my_tuple], axis=1))
-            moment_denom_tot = np.nan_to_num(
+            moment_denom_tot += np.nan_to_num(
                 np.stack([x[1] for x in my_tuple], axis=1))
             hyd_ext += np.nan_to_num(np.stack([x[2] for x in my_tuple], axis=1))
 
@@ -803,7 +803,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 else:
                     sigma_d_numer = [x for x in map(_calc_sigma_d_liq, np.arange(0, Dims[1], 1))]
 
-                sigma_d_numer_tot = np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
+                sigma_d_numer_tot += np.nan_to_num(np.stack([x[0] for x in sigma_d_numer], axis=1))
             else:
                 sub_frac_arr = model.ds["strat_frac_subcolumns_%s" % hyd_type].values
                 _calc_sigma = lambda x: _calc_sigma_d_tot(
-- 
2.43.0


From 1766634c67bb506cdf0473d6a3c9f48e0673d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 12/29] fix: total spectral width uses each class's own
 air-density correction

---
 emc2/simulator/radar_moments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index af34338..12bfbc0 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -772,6 +772,12 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 v_tmp = model.vel_param_a[hyd_type] * p_diam ** model.vel_param_b[hyd_type]
                 v_tmp = -v_tmp.magnitude
 
+            # Microphysics scheme-specific air density correction of terminal velocity
+            rhoa_corr = np.ones(model.ds["rho_a"].shape)  # by default, no correction is applied
+            if hyd_type in model.Vd_rhoa_scaling_ref.keys():
+                if model.Vd_rhoa_scaling_ref[hyd_type] is not None:
+                    rhoa_corr = (model.Vd_rhoa_scaling_ref[hyd_type] / model.ds["rho_a"].values) ** 0.54
+
             frac_names = "strat_frac_subcolumns_%s" % hyd_type
             n_names = "strat_n_subcolumns_%s" % hyd_type
             total_hydrometeor = model.ds[frac_names] * model.ds[n_names]
-- 
2.43.0


From 9252eda37e6a6a60e935b662c147a6ca46fd3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 13/29] fix: empirical radar attenuation counts all liquid
 classes

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 12bfbc0..e2428f3 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -193,9 +193,9 @@ def calc_radar_empirical(instrument, model, is_conv, p_values, t_values, z_value
     model.ds["sub_col_Ze_tot_%s" % cloud_str] = xr.DataArray(
         np.zeros(Dims), dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
 
+    WC_tot = np.zeros(Dims)
     for hyd_type in hyd_types:
         q_field = "%s_q_subcolumns_%s" % (cloud_str, hyd_type)
-        WC_tot = np.zeros(Dims)
         WC = model.ds["%s_q_subcolumns_%s" % (cloud_str, hyd_type)] * p_values / \
             (instrument.R_d * (t_values + 273.15)) * 1e3
         # Fox and Illingworth (1997)
-- 
2.43.0


From f5c8cb0cf824b69b266779bbb027dc87838fe76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 14/29] fix: bulk radar attenuation is not lost above
 hydrometeor-free levels

---
 emc2/simulator/radar_moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index e2428f3..d5ec046 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -433,7 +433,7 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             interpolator = LinearNDInterpolator(np.stack((mu_b, lambda_b), axis=1), Qext_bulk.flatten())
             interp_vals = interpolator(mu_array[rel_locs], lambda_array[rel_locs])
             np.place(ext_tmp, rel_locs, interp_vals)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         elif np.all([np.isin(hyd_type, ["ci"]), model.rad_scheme_family in ["P3"]]):  # P3 ice
             print("3-D interpolation of bulk ice radar backscattering using Fr-rho_r-q_norm values")
             back_tmp = np.where(sub_frac_arr, (scat_dict["Q_back_bulk"] * instrument.wavelength ** 4) /
@@ -443,13 +443,13 @@ def calc_radar_bulk(instrument, model, is_conv, p_values, z_values, atm_ext, OD_
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 back_tmp * A_hyd,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += ext_tmp * A_hyd
+            hyd_ext += np.nan_to_num(ext_tmp * A_hyd)
         else:
             model.ds["sub_col_Ze_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
                 (np.interp(re_array, r_eff_bulk, Qback_bulk) * A_hyd * instrument.wavelength ** 4) /
                 (instrument.K_w * np.pi ** 5) * 1e-6,
                 dims=model.ds["%s_q_subcolumns_ci" % cloud_str].dims)
-            hyd_ext += np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd
+            hyd_ext += np.nan_to_num(np.interp(re_array, r_eff_bulk, Qext_bulk) * A_hyd)
 
         model.ds["sub_col_Ze_tot_%s" % cloud_str] += model.ds["sub_col_Ze_%s_%s" % (
             hyd_type, cloud_str)].fillna(0)
-- 
2.43.0


From 91d596ae010796e81a0a68bc19537f3d47b63add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 15/29] fix: P3 microphysics simulation can be repeated on the
 same model

---
 emc2/simulator/lidar_moments.py | 12 ++++++------
 emc2/simulator/radar_moments.py | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 46b2e1b..256473a 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -635,12 +635,12 @@ def calc_lidar_micro(instrument, model, z_values, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             calc_kws = i_calc_kws
         else:
             calc_kws = None
diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index d5ec046..875cab6 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -610,13 +610,13 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                          instrument.scat_table['p3_ice']["rho_r"].values,
                          instrument.scat_table['p3_ice']["p_diam"].values),
                         instrument.scat_table['p3_ice'][lut_key].values, bounds_error=False)
-                i_calc_kws = {"vt": model.interpobj["single"]["vt"],
-                              "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
-                              "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
-                              "Fr_in": model.ds["Fr"].values,
-                              "rho_r_in": model.ds["rho_r"].values,
-                              "mie_for_ice": mie_for_ice,
-                             }  # allocate only once
+            i_calc_kws = {"vt": model.interpobj["single"]["vt"],
+                          "beta_p": model.interpobj["single"][instrument.instrument_str]["beta_p"],
+                          "alpha_p": model.interpobj["single"][instrument.instrument_str]["alpha_p"],
+                          "Fr_in": model.ds["Fr"].values,
+                          "rho_r_in": model.ds["rho_r"].values,
+                          "mie_for_ice": mie_for_ice,
+                         }  # allocate only once
             v_tmp = None
             calc_kws = i_calc_kws
         else:
-- 
2.43.0


From 26b0d67f5ba00ab7b11b74a91233b86449b82884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 16/29] fix: radar microphysics simulation runs for the NSSL
 scheme with downward fall speeds

---
 emc2/simulator/radar_moments.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 875cab6..8bc0eb4 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -595,7 +595,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                 rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                 v_tmp = 'variable'
             else:
-                v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                rhoe = None  # same fall velocity at all levels
+            calc_kws = None
         elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
             if instrument.instrument_str not in model.interpobj["single"].keys():
                 model.interpobj["single"][instrument.instrument_str] = {}  # gen scattering interp objects
@@ -763,7 +765,9 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
                     rhoe = model.ds[model.variable_density[hyd_type]].values[:]
                     v_tmp = 'variable'
                 else:
-                    v_tmp = calc_velocity_nssl(p_diam, rhoe, hyd_type)
+                    v_tmp = -calc_velocity_nssl(p_diam, rhoe.magnitude, hyd_type)
+                    rhoe = None  # same fall velocity at all levels
+                calc_kws = None
             elif (model.mcphys_scheme == "P3") & (hyd_type == "ci"):
                 v_tmp = None
                 calc_kws = i_calc_kws
@@ -1073,9 +1077,11 @@ def _calc_sigma_d_tot_cl(tt, N_0, lambdas, mu, instrument,
             instrument.mie_table[hyd_type]["beta_p"].values,
             (num_subcolumns, 1)) * N_D.T
         moment_denom = np.trapz(Calc_tmp, x=p_diam, axis=1).astype('float64')
-        if mcphys_scheme.lower() in ["mg2", "mg", "morrison", "nssl", "p3"]:  # power-law velocity schemes for liquid
+        if mcphys_scheme.lower() == "nssl":  # NSSL parameterization for fall velocity
+            v_tmp = -calc_velocity_nssl(p_diam, None, hyd_type)
+        elif mcphys_scheme.lower() in ["mg2", "mg", "morrison", "p3"]:  # power-law velocity schemes for liquid
             v_tmp = vel_param_a[hyd_type] * p_diam ** vel_param_b[hyd_type]
-        v_tmp = -v_tmp.magnitude.astype('float64')
+            v_tmp = -v_tmp.magnitude.astype('float64')
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(Vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         sigma_d_numer[:, k] = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1124,7 +1130,7 @@ def _calc_sigma_d_tot(tt, num_subcolumns, v_tmp, N_0, lambdas, mu,
         v_use = v_tmp
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_use = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_use = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_use * rhoa_corr_single
         Calc_tmp2 = (v_use - np.tile(vd_tot[:, tt, k], (num_diam, 1)).T) ** 2 * Calc_tmp.astype('float64')
         Calc_tmp2 = np.trapz(Calc_tmp2, x=p_diam, axis=1)
@@ -1242,7 +1248,7 @@ def _calculate_other_observables(tt, total_hydrometeor, N_0, lambdas, mu,
             Zv[:, k] = np.nan
         if rhoe is not None:
             if mcphys_scheme.lower() in ["nssl"]:  # NSSL parameterization for fall velocity
-                v_tmp = calc_velocity_nssl(rhoe[tt, k], p_diam, hyd_type)
+                v_tmp = -calc_velocity_nssl(p_diam, rhoe[tt, k], hyd_type)
         v_use = v_tmp * rhoa_corr_single
         Calc_tmp2 = Calc_tmp * v_use
         V_d_numer = np.trapz(Calc_tmp2, axis=1, x=p_diam)
-- 
2.43.0


From 5a71b231753637a4d2ddbab182d14ddae105c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 17/29] fix: convective fraction can be set with a single
 subcolumn

---
 emc2/simulator/subcolumn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index ef13958..fd2a2c8 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -54,7 +54,8 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
        model.ds[("conv_frac_subcolumns_" + hyd_type)] = xr.DataArray(
-           np.where(model.ds[model.q_names_convective[hyd_type]].values > q_trunc_thresh, 1., 0.),
+           np.where(np.tile(model.ds[model.q_names_convective[hyd_type]],
+                            (1, 1, 1)) > q_trunc_thresh, 1., 0.),
            dims=('subcolumn', my_dims[0], my_dims[1]))
     else:  # num_subcolumns > 1
         if use_rad_logic:
-- 
2.43.0


From 81e91051e5b6fc061b440c6fb93fc2eb37d05059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 18/29] fix: make_simulated_data allocates all convective
 precipitation classes

---
 emc2/simulator/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/main.py b/emc2/simulator/main.py
index e4a872d..06a01b4 100644
--- a/emc2/simulator/main.py
+++ b/emc2/simulator/main.py
@@ -144,7 +144,8 @@ def make_simulated_data(model, instrument, N_columns, do_classify=False, unstack
                 precip_types=precip_types)
         if model.process_conv:
             model = set_precip_sub_col_frac(
-                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk)
+                model, is_conv=True, use_rad_logic=use_rad_logic, parallel=parallel, chunk=chunk,
+                precip_types=precip_types)
         for hyd_type in hydrometeor_classes:
             if hyd_type != 'cl':
                 model = set_q_n(
-- 
2.43.0


From 7f754e0fa956b347f242bd1320f8f70a15e12620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 19/29] fix: gaseous attenuation does not depend on the unit of
 pressure

---
 emc2/simulator/attenuation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index 93c1d50..baaaa30 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -71,8 +71,8 @@ def calc_radar_atm_attenuation(instrument, model):
     f0 = 60.
 
     gamma_0 = 0.59 * (1 + 3.1e-3 * (333 - p_temp))
-    gamma_0[column_ds[p_field].values >= 333] = 0.59
-    gamma_0[column_ds[p_field].values < 25.] = 1.18
+    gamma_0[p_temp >= 333] = 0.59
+    gamma_0[p_temp < 25.] = 1.18
     gamma_l = gamma_0 * (p_temp / 1013.) * three_hundred_t**0.85
     kappa_o2 = (1.1e-2 * instrument.freq**2) * (p_temp / 1013.) * three_hundred_t**2 * \
         gamma_l * (1. / ((instrument.freq - f0)**2 + gamma_l**2) + 1. /
-- 
2.43.0


From bd3436fd09deee3ec3e2f9a34745037c6fd43625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 20/29] fix: minimum detectable reflectivity does not depend on
 the unit of height

---
 emc2/simulator/attenuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/attenuation.py b/emc2/simulator/attenuation.py
index baaaa30..3e05891 100644
--- a/emc2/simulator/attenuation.py
+++ b/emc2/simulator/attenuation.py
@@ -23,7 +23,9 @@ def calc_radar_Ze_min(instrument, model, ref_rng=1000):
         The Model class that will store the Ze_min profile.
     """
 
-    Ze_min = instrument.Z_min_1km + 20 * np.log10(model.ds[model.z_field]) - 20 * np.log10(ref_rng)
+    z_values = quantity(model.ds[model.z_field].values,
+                        model.ds[model.z_field].attrs["units"]).to("meter").magnitude
+    Ze_min = instrument.Z_min_1km + 20 * np.log10(z_values) - 20 * np.log10(ref_rng)
     model.ds['Ze_min'] = xr.DataArray(Ze_min, dims=model.ds[model.z_field].dims)
     model.ds["Ze_min"].attrs["long_name"] = "Minimum discernable radar reflectivity factor"
     model.ds["Ze_min"].attrs["units"] = 'dBZ'
-- 
2.43.0


From 7184a1f6129fe5599857850345f33fee8ea8e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 21/29] fix: COSP phase labels do not depend on the unit of
 temperature

---
 emc2/simulator/classification.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/emc2/simulator/classification.py b/emc2/simulator/classification.py
index 76d1037..8fc8a4e 100644
--- a/emc2/simulator/classification.py
+++ b/emc2/simulator/classification.py
@@ -2,6 +2,7 @@ import xarray as xr
 import numpy as np
 
 from ..core import Instrument, Model
+from ..core.instrument import quantity
 
 
 def lidar_classify_phase(instrument, model, beta_p_phase_thresh=None,
@@ -243,6 +244,9 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     ATB_mol = np.tile(model.ds['sigma_180_vol'].values * (1. + 0.0284) * model.ds['tau'].values,
                       (model.num_subcolumns, 1, 1))
 
+    t_values = quantity(model.ds[model.T_field].values,
+                        model.ds[model.T_field].attrs["units"]).to('kelvin').magnitude
+
     beta_p_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
     beta_p_cross_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
     OD_allhyd = np.zeros_like(model.ds['sub_col_beta_p_tot_strat'].values)
@@ -301,10 +305,10 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
         reflective_mask = np.where(np.logical_and(SR > undef_SR_thresh, reflective_mask == 1),
                                    0, reflective_mask)
 
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+        phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                      (model.num_subcolumns, 1, 1)) > 273.15,
                               phase_mask > 0), 1, phase_mask)
-        phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+        phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                      (model.num_subcolumns, 1, 1)) < 233.15,
                               phase_mask > 0), 2, phase_mask)
         phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
@@ -363,10 +367,10 @@ def lidar_emulate_cosp_phase(instrument, model, eta=0.7, OD_from_sfc=True, phase
     reflective_mask = np.where(np.logical_and(SR_allhyd > undef_SR_thresh, reflective_mask == 1),
                                0, reflective_mask)
 
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+    phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                  (model.num_subcolumns, 1, 1)) > 273.15,
                           phase_mask > 0), 1, phase_mask)
-    phase_mask = np.where(np.logical_and(np.tile(model.ds[model.T_field].values,
+    phase_mask = np.where(np.logical_and(np.tile(t_values,
                                                  (model.num_subcolumns, 1, 1)) < 233.15,
                           phase_mask > 0), 2, phase_mask)
     phase_mask = np.where(np.logical_and(reflective_mask > 0, phase_mask > 0), 3, phase_mask)
-- 
2.43.0


From d894a808279ecee33fa42619ef1fcfb608a47e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 22/29] fix: vertical regridding includes the lowest source
 layer and stops at the source top

---
 emc2/statistics_LLNL/statistical_aggregation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emc2/statistics_LLNL/statistical_aggregation.py b/emc2/statistics_LLNL/statistical_aggregation.py
index 3d0062b..236fe13 100755
--- a/emc2/statistics_LLNL/statistical_aggregation.py
+++ b/emc2/statistics_LLNL/statistical_aggregation.py
@@ -246,7 +246,7 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
             wt = 0.  # Sum of weights
             # Loop over levels in the old grid and accumulate total for weighted average
             # change do loop in Fortran to while loop in Python
-            while lev < Nlevels:
+            while lev < Nlevels - 1:
                 lev = lev + 1  # return to while loop
                 w = 0.0  # Initialise weight to 0
 
@@ -287,8 +287,8 @@ def COSP_CHANGE_VERTICAL_GRID(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglev
 
                             r[i, j, k] = r[i, j, k] + w*yp
             lev -= 2
-            if lev < 1:
-                lev = 0
+            if lev < -1:
+                lev = -1
 
             # Calculate average in new grid
             if Nw > 0:
-- 
2.43.0


From 2891e802e5881696f2c7d74e4211725b5dd92a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 23/29] fix: subcolumns_to_netcdf keeps the COSP attenuated
 backscatter and scattering ratio

---
 emc2/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ff4a8ff..ba9c682 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -565,7 +565,7 @@ class Model():
             The name of the file to save to.
         """
         # Set all relevant variables to save:
-        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", self.time_dim, "Times"]
+        vars_to_keep = ["sub_col", "subcol", "strat_", "conv_", "_tot", "_ext", "_mask", "_min", "mpr", "fpr", "COSP_", self.time_dim, "Times"]
         var_dict = {}
         for my_var in self.ds.variables.keys():
             if np.any([x in my_var for x in vars_to_keep]):
-- 
2.43.0


From b8302d69c8c4755e00abfbae3032ef5fa7fe2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 24/29] fix: N_columns=None uses the model's number of
 subcolumns in every allocation step

---
 emc2/simulator/subcolumn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emc2/simulator/subcolumn.py b/emc2/simulator/subcolumn.py
index fd2a2c8..827d682 100644
--- a/emc2/simulator/subcolumn.py
+++ b/emc2/simulator/subcolumn.py
@@ -50,6 +50,9 @@ def set_convective_sub_col_frac(model, hyd_type, N_columns=None, use_rad_logic=T
     if model.num_subcolumns == 0:
         model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
 
+    if N_columns is None:
+        N_columns = model.num_subcolumns
+
     if N_columns == 1:
        print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields for convective {hyd_type} based on q > {q_trunc_thresh} kg/kg")
@@ -143,9 +146,11 @@ def set_stratiform_sub_col_frac(model, N_columns=None, use_rad_logic=True, paral
     else:
         if model.num_subcolumns == 0:
             model.ds['subcolumn'] = xr.DataArray(np.arange(0, N_columns), dims='subcolumn')
-        conv_profs = np.zeros((N_columns, *model.ds[model.strat_frac_names["cl"]].shape),
+        conv_profs = np.zeros((model.num_subcolumns, *model.ds[model.strat_frac_names["cl"]].shape),
                               dtype=bool)
     subcolumn_dims = ("subcolumn", *model.ds[model.strat_frac_names_for_rad["cl"]].dims)
+    if N_columns is None:
+        N_columns = model.num_subcolumns
     if N_columns == 1:
         print(f"num_subcolumns == 1 (subcolumn generator turned off); setting subcolumns frac "
               f"fields to 1 for startiform cl and ci based on q > {q_trunc_thresh} kg/kg")
-- 
2.43.0


From 6575afc243ee7ef86e9e596db44be081124072fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 25/29] fix: empirical lidar calculation works for liquid
 classes

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 256473a..6ea1a06 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -257,7 +257,7 @@ def calc_lidar_empirical(instrument, model, is_conv, p_values, t_values, z_value
             empr_array = model.ds[model.strat_re_fields[hyd_type]].values
         if hyd_type == "cl" or hyd_type == "pl":
             model.ds["sub_col_alpha_p_%s_%s" % (hyd_type, cloud_str)] = xr.DataArray(
-                (3 * WC) / (2 * model.Rho_hyd[hyd_type] * 1e-6 *
+                (3 * WC) / (2 * model.Rho_hyd[hyd_type].magnitude * 1e-6 *
                             np.tile(empr_array, (model.num_subcolumns, 1, 1))),
                 dims=model.ds["%s_q_subcolumns_cl" % cloud_str].dims)
         else:
-- 
2.43.0


From 2a5c2983dd98af56f566b647950c6bfdca066f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 26/29] fix: radar microphysics simulation works for P3 ice
 alone

---
 emc2/simulator/radar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/radar_moments.py b/emc2/simulator/radar_moments.py
index 8bc0eb4..bf2e760 100644
--- a/emc2/simulator/radar_moments.py
+++ b/emc2/simulator/radar_moments.py
@@ -843,7 +843,7 @@ def calc_radar_micro(instrument, model, z_values, atm_ext, OD_from_sfc=True,
     else: 
         print("User chose to skip spectral width calculations")
  
-    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"))
+    model.ds = model.ds.drop_vars(("N_0", "lambda", "mu"), errors="ignore")
 
     if calc_spectral_width:
         model.ds["sub_col_sigma_d_tot_strat"] = xr.DataArray(np.sqrt(sigma_d_numer_tot / moment_denom_tot),
-- 
2.43.0


From 8e38088cc858bcdfcfb26aef7a98563530de68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 27/29] fix: stacking and unstacking keeps the attributes of
 the coordinates

---
 emc2/core/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/emc2/core/model.py b/emc2/core/model.py
index ba9c682..3d87f2f 100644
--- a/emc2/core/model.py
+++ b/emc2/core/model.py
@@ -439,14 +439,17 @@ class Model():
                       "and lon dims for processing with EMC^2." % file_path)
                 self.ds[self.lat_dim + "_tmp"] = (
                     xr.DataArray(self.ds[self.lat_dim].values,
-                                 coords={self.lat_dim + "_tmp": self.ds[self.lat_dim].values}))
+                                 coords={self.lat_dim + "_tmp": self.ds[self.lat_dim].values},
+                                 attrs=self.ds[self.lat_dim].attrs))
                 if do_process == 1:
                     self.ds[self.lon_dim + "_tmp"] = (
                         xr.DataArray(self.ds[self.lon_dim].values,
-                                     coords={self.lon_dim + "_tmp": self.ds[self.lon_dim].values}))
+                                     coords={self.lon_dim + "_tmp": self.ds[self.lon_dim].values},
+                                     attrs=self.ds[self.lon_dim].attrs))
                 self.ds[self.time_dim + "_tmp"] = (
                     xr.DataArray(self.ds[self.time_dim].values,
-                                 coords={self.time_dim + "_tmp": self.ds[self.time_dim].values}))
+                                 coords={self.time_dim + "_tmp": self.ds[self.time_dim].values},
+                                 attrs=self.ds[self.time_dim].attrs))
                 if do_process == 1:
                     self.ds = self.ds.stack({out_coord_name: (self.lat_dim, self.lon_dim, self.time_dim)})
                 else:
-- 
2.43.0


From 45cdacf3f79a7eae614ba3f2be53b940688fbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 28/29] fix: scattering cross sections are labelled in the unit
 they are converted to

---
 emc2/io/load_mie_file.py  | 2 +-
 emc2/io/load_scat_file.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emc2/io/load_mie_file.py b/emc2/io/load_mie_file.py
index 132ee6e..46fe557 100644
--- a/emc2/io/load_mie_file.py
+++ b/emc2/io/load_mie_file.py
@@ -52,7 +52,7 @@ def load_mie_file(filename):
                                              "by the real index of the medium (imaginary part)")
     my_df['compre_im'].attrs["standard_name"] = "Complex_over_real_Im"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
diff --git a/emc2/io/load_scat_file.py b/emc2/io/load_scat_file.py
index 0e5cd62..1e4cab6 100644
--- a/emc2/io/load_scat_file.py
+++ b/emc2/io/load_scat_file.py
@@ -88,7 +88,7 @@ def load_scat_file(filename, is_radar, param_type="C6"):
     my_df["V"].attrs["long_name"] = "Particle volume"
     my_df['V'].attrs["standard_name"] = "Volume"
 
-    my_df["scat_p"].attrs["units"] = "microns^2"
+    my_df["scat_p"].attrs["units"] = "meters^2"
     my_df["scat_p"].attrs["long_name"] = "Scattering cross section"
     my_df["scat_p"].attrs["standard_name"] = "Scat_cross_section"
 
-- 
2.43.0


From 0b95670a936573f2047febee85a9c6752ddc1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 29/29] fix: bulk lidar calculation runs with variable
 hydrometeor density and fluffiness

---
 emc2/simulator/lidar_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emc2/simulator/lidar_moments.py b/emc2/simulator/lidar_moments.py
index 6ea1a06..3e1e7ce 100644
--- a/emc2/simulator/lidar_moments.py
+++ b/emc2/simulator/lidar_moments.py
@@ -421,7 +421,7 @@ def calc_lidar_bulk(instrument, model, is_conv, p_values, z_values, OD_from_sfc=
             rho_b = instrument.rho_i  # bulk ice
             rho_hyd = model.Rho_hyd[hyd_type]
             if rho_hyd == 'variable':
-                rho_hyd = model.ds[model.variable_density[hyd_type]].values
+                rho_hyd = model.ds[model.variable_density[hyd_type]].values * rho_b.units
             if model.fluffy is None:
                 re_array = np.tile(model.ds[re_fields[hyd_type]].values, (n_subcolumns, 1, 1))
             else:
-- 
2.43.0

