From 513e781f6ff777a5649809bd22eac173ef659a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:25 +0000
Subject: [PATCH 01/31] fix: two-layer model counted volcanic forcing twice

The global mean of the hemispheric volcanic series is half their sum, as for
the other forcing.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..740c0c7 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,7 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (np.mean(fn_volc) + np.mean(fs_volc)) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From 1bdbabb2f09b493de8a32c88c5f1ec8c84568f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:08 +0000
Subject: [PATCH 02/31] fix: gases other than CO2, CH4 and N2O ignored
 emissions when emissions start in the last year

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..8769744 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -279,7 +279,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
-- 
2.43.0


From dd43106b76b1b0d69fde3b6783e6b2d46eac6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:32 +0000
Subject: [PATCH 03/31] fix: emissions start at or before the first year broke
 gases other than CO2, CH4 and N2O

---
 src/ciceroscm/concentrations_emissions_handler.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 8769744..e325429 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -287,15 +287,20 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        # Emissions may be used from the very first year
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_start = conc_in_vanilla.loc[
+            max(emstart - 1, self.pamset["nystart"])
+        ].to_numpy()
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -306,7 +311,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_start
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From 525236835507cbd64fee963d447e65fb7a5ecba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:58 +0000
Subject: [PATCH 04/31] fix: aerosol weight ignored forcing perturbations of
 aerosols

---
 src/ciceroscm/concentrations_emissions_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index e325429..37e452d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -641,7 +641,7 @@ class ConcentrationsEmissionsHandler:
         tot_forc, forc_nh, forc_sh = self.calculate_forc_three_main(yr)
         yr_0 = self.years[0]
         # Finish per tracer calculations, add per tracer to printable df and sum the total
-        f_aero_mag = 0.0
+        aerosol_tracers = []
         for tracer, forc_val_series in self.forc.items():
             if tracer in ["CO2", "N2O", "CH4"]:
                 continue
@@ -656,7 +656,7 @@ class ConcentrationsEmissionsHandler:
                 "BM",
             ]:
                 q = self.calc_aerosol_forcing(yr, tracer)
-                f_aero_mag = f_aero_mag + abs(q)
+                aerosol_tracers.append(tracer)
             elif (
                 tracer in self.df_gas.index
                 and self.df_gas["ALPHA"][tracer] != 0  # pylint: disable=compare-to-zero
@@ -723,6 +723,7 @@ class ConcentrationsEmissionsHandler:
         # Returns 0.0 when all components are zero (pre-industrial),
         # which is the no-pattern-effect case anyway.
         idx = yr - yr_0
+        f_aero_mag = sum(abs(self.forc[k][idx]) for k in aerosol_tracers)
         f_abs_total = sum(
             abs(s[idx]) for k, s in self.forc.items() if k != "Total_forcing"
         )
-- 
2.43.0


From dfd950446ba76d7f09681d3ca94e6128117a17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:40 +0000
Subject: [PATCH 05/31] fix: repeated forcing perturbations of a linear gas in
 one year lost all but the last

---
 src/ciceroscm/perturbations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..b5db9c5 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,8 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for row in perturb_here.itertuples(index=True, name="Pandas"):
+                precalc_erf.loc[row.year, gas] = (
+                    precalc_erf.loc[row.year, gas] + row.forcing
+                )
         return
-- 
2.43.0


From 8ad82023201893287d646e1dedae395947750dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 06/31] fix: back-calculated emissions depended on what the
 carbon cycle instance was used for before

---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..4dc6338 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -329,6 +329,9 @@ class AbstractCarbonCycleModel(ABC):
             Timeseries of estimated emissions to match the concentration and
             temperature timeseries sent
         """
+        # The series starts in year 0, so start from the initial model state,
+        # also if this instance has been used before
+        self.reset_co2_hold()
         prev_co2_conc = self.get_preindustrial_co2_conc()
         em_series = np.zeros(len(co2_conc_series))
         if feedback_dict_series is None:
-- 
2.43.0


From 79e70a98cd3261e85cb68d4565d1f499ad4225c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:45 +0000
Subject: [PATCH 07/31] fix: back-calculated emissions were silently wrong when
 outside the estimated span

---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index 4dc6338..5c0852d 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -200,6 +200,7 @@ class AbstractCarbonCycleModel(ABC):
         """
         max_guess = initial_max_min_guess[0]
         min_guess = initial_max_min_guess[1]
+        width = max_guess - min_guess
         guess = np.mean((min_guess, max_guess))
         hold_dict = self._get_co2_hold_values()
         estimated_conc = self.co2em2conc(
@@ -212,10 +213,18 @@ class AbstractCarbonCycleModel(ABC):
         ):
             if estimated_conc > co2_conc_now:
                 max_guess = guess
+                if max_guess - min_guess < 1e-9 * width:
+                    # Solution lies below the initial span, widen it
+                    width = 4 * width
+                    min_guess = max_guess - width
                 guess = (guess + min_guess) / 2
 
             else:
                 min_guess = guess
+                if max_guess - min_guess < 1e-9 * width:
+                    # Solution lies above the initial span, widen it
+                    width = 4 * width
+                    max_guess = min_guess + width
                 guess = (guess + max_guess) / 2
             self._set_co2_hold(hold_dict)
             estimated_conc = self.co2em2conc(
-- 
2.43.0


From 4b6aedb12c43a9e424c8c6d483fb2f8f5a551742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:35 +0000
Subject: [PATCH 08/31] fix: runs overwrote natural emissions in the gas
 parameter data passed in by the user

---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 37e452d..a0496c0 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -182,7 +182,8 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        # Natural emissions are filled in here during a run, the input stays as is
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
-- 
2.43.0


From b345abbb9402678137102540ae6267aef644fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:35 +0000
Subject: [PATCH 09/31] fix: emission perturbations were added to the emissions
 data passed in by the user, and so again in every later use of it

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index a0496c0..93eb50d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -194,6 +194,8 @@ class ConcentrationsEmissionsHandler:
         self.emis = input_handler.get_data("emissions")
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
+            # Perturb a copy, the input might be used for other runs
+            self.emis = self.emis.copy()
             perturb_emissions(input_handler, self.emis)
         if input_handler.optional_pam("perturb_forc"):
             self.pamset["forc_pert"] = ForcingPerturbation(input_handler, self.years[0])
-- 
2.43.0


From 64cca4028d2a5de86e44624fad1561a493bd4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 10/31] fix: total forcing was missing for forcing files with
 hemispheric forcing

---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..2b88f22 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,7 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 022a311a2f8ca548c2279379615ad604f91cc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 11/31] fix: aerosol weight column of a forcing file was added
 to its total forcing

---
 src/ciceroscm/input_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 2b88f22..4621613 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -176,7 +176,9 @@ def read_forc(forc_file):
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
                 df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
-                df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
+                df_forc["total"] = df_forc.drop(columns="w_aero", errors="ignore").sum(
+                    axis=1
+                )
                 df_forc["FORC_NH"] = df_forc["total"]
                 df_forc["FORC_SH"] = df_forc["total"]
 
-- 
2.43.0


From 236a1a8cb515ac0485bd3abb66fc93e91fe541fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 12/31] fix: forcing files with a total column but no
 hemispheric forcing could not be run

---
 src/ciceroscm/input_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 4621613..e2d09e1 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -179,8 +179,9 @@ def read_forc(forc_file):
                 df_forc["total"] = df_forc.drop(columns="w_aero", errors="ignore").sum(
                     axis=1
                 )
-                df_forc["FORC_NH"] = df_forc["total"]
-                df_forc["FORC_SH"] = df_forc["total"]
+        for hemisphere in ["FORC_NH", "FORC_SH"]:
+            if hemisphere not in df_forc.columns:
+                df_forc[hemisphere] = df_forc["total"]
 
         # Pattern-mediated feedback precomputation: when the
         # forcing file carries per-agent columns matching AEROSOL_TRACERS
-- 
2.43.0


From f4aae6da8be44b0b31c6fcdc87d2f5c805bf1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 13/31] fix: SO2F2 in a forcing file counted as an aerosol

---
 src/ciceroscm/input_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index e2d09e1..1b7a1f8 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -192,7 +192,9 @@ def read_forc(forc_file):
         if "w_aero" not in df_forc.columns:
             aero_cols = [c for c in AEROSOL_TRACERS if c in df_forc.columns]
             aero_cols_reg = [
-                c for c in df_forc.columns if c[:2] in ["SO", "BC", "OC", "BM"]
+                c
+                for c in df_forc.columns
+                if c.split("_")[0] in ["SO2", "SO4", "BC", "OC", "BMB"]
             ]
             for c in aero_cols_reg:
                 if c not in aero_cols:
-- 
2.43.0


From c20262d32cbc27440c24c87b93c8c211c7e23083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 14/31] fix: hemispherically symmetric volcanic forcing from
 the user was ignored

---
 src/ciceroscm/input_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 1b7a1f8..cd99be0 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -283,6 +283,9 @@ class InputHandler:
         for key in self.read_methods:
             used[f"{key}_file"] = 0
             used[f"{key}_data"] = 0
+        # Volcanic forcing common to both hemispheres
+        used["rf_volc_file"] = 0
+        used["rf_volc_data"] = 0
         self.cfg = cut_and_check_pamset(
             {
                 "nystart": 1750,
-- 
2.43.0


From 190a409cfd46ef1b0a91c34a5b6e710d760dd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:39 +0000
Subject: [PATCH 15/31] fix: rs_function and rb_function in the configuration
 had no effect

---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..fa4b74d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From b36fdc45bcef273133a2c180af4df143399471eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:54 +0000
Subject: [PATCH 16/31] fix: results of runs with emissions data from before
 the start year could not be collected

---
 src/ciceroscm/concentrations_emissions_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 93eb50d..6f78baf 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -1004,9 +1004,9 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[
+            self.years[0] : self.years[-1]
+        ]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From 6383e5ae39c2fa142caa0ed477a37502b4f022c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:52 +0000
Subject: [PATCH 17/31] fix: serial runs of several processes returned their
 results in the wrong order

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From e57ab015f4b2f28e2ca26aee4f9e139c76300ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:01 +0000
Subject: [PATCH 18/31] fix: aerosol forcing totals read from results held only
 the direct sulfate effect

---
 .../formattingtools/reformat_cscm_results.py  | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..8a7136d 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -6,7 +6,7 @@ and returns data to append to SCMRun
 import numpy as np
 import pandas as pd
 
-from ..constants import DAY_YEAR, OCEAN_AREA, SEC_DAY
+from ..constants import AEROSOL_TRACERS, DAY_YEAR, OCEAN_AREA, SEC_DAY
 
 openscm_to_cscm_dict = {
     "Surface Air Temperature Change": "dT_glob_air",
@@ -165,6 +165,29 @@ carbon_cycle_outputs = {
 }
 
 
+def is_aerosol_component(comp):
+    """
+    Check if a column of the forcing results is an aerosol or a regional aerosol
+
+    Parameters
+    ----------
+    comp : str
+        Name of column in forcing results
+
+    Returns
+    -------
+    bool
+        Whether the column holds aerosol forcing
+    """
+    return comp in AEROSOL_TRACERS or comp.split("_")[0] in (
+        "SO2",
+        "SO4",
+        "BC",
+        "OC",
+        "BMB",
+    )
+
+
 def get_data_from_forc_common(
     df_temp, variable, v_dict, volc=0, sun=0
 ):  # pylint:disable=too-many-branches
@@ -177,9 +200,11 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in df_temp.columns:
+            if not is_aerosol_component(comp):
+                continue
+            if variable == "Aerosols" or comp != "SO4_IND":
+                timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
-- 
2.43.0


From 5a8b5f0de46b6ba1935c241944e0fa518daccc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:49 +0000
Subject: [PATCH 19/31] fix: carbon response function parameters with set
 values went to the wrong parameter set of distributions

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From 1723e6e08db5b61d753c001b1579420c10e1e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:49 +0000
Subject: [PATCH 20/31] fix: distributions over some thermal model parameters
 had no effect

---
 src/ciceroscm/parallel/_configdistro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..b71fb0c 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -83,6 +83,11 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
-- 
2.43.0


From 9052b70b96c8f61219b41ec44b1fcd0ef88d2e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:49 +0000
Subject: [PATCH 21/31] fix: distributions over parameters of the box carbon
 cycle had no effect

---
 src/ciceroscm/parallel/_configdistro.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b71fb0c..a244986 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -9,6 +9,7 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
 
 LOGGER = logging.getLogger(__name__)
 
@@ -100,6 +101,11 @@ set_values_default = {
 }
 """dict: Containing default set values for parameters"""
 
+carbon_parameters = set(CARBON_CYCLE_MODEL_REQUIRED_PAMSET) | set(
+    BoxCarbonCycleModel.carbon_cycle_model_required_pamset
+)
+"""set: Containing the parameters of all the carbon cycle models"""
+
 options_default = {"forc": False, "method": "latin"}
 """dict: Containing default options for making parameter distributions"""
 
@@ -205,7 +211,7 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+            elif pam in carbon_parameters or pam.startswith(
                 ("rb_", "rs_")
             ):
                 self.pamset_carbon_start[pam] = value
@@ -361,10 +367,7 @@ class _ConfigDistro:
             for j, pam in enumerate(self.ordering):
                 if pam in ordering_standard_forc:
                     pamset_udm[pam] = samples[i, j]
-                elif (
-                    not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
-                ):
+                elif not self.options["forc"] and pam in carbon_parameters:
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
                     pamset_carbon[pam] = samples[i, j]
-- 
2.43.0


From 1846c9521341bce403ba113b7f21332885afacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:49 +0000
Subject: [PATCH 22/31] fix: information about configurations was lost when
 written to file again

---
 src/ciceroscm/parallel/distributionrun.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..1b066ba 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -87,9 +87,12 @@ class DistributionRun:
         json_file_name: str
             path for json file to write configurations in
         meta_info: dict, optional
-            dictionary with meta optional information to add to the json file
+            dictionary with meta optional information to add to the json file,
+            if it is not given, the information read with the configurations is kept
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From a3b2ba3cefcc54dfad74379b37986370af937559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 23/31] fix: methane lifetime modes CONSTANT and other
 documented names had no effect

---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 6f78baf..f319987 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -845,9 +845,9 @@ class ConcentrationsEmissionsHandler:
             )
             q = q * (dln_oh + 1)
 
-        elif self.pamset["lifetime_mode"] == "CONSTANT_12":
+        elif self.pamset["lifetime_mode"] in ("CONSTANT", "CONSTANT_12"):
             q = 1.0 / 12.0
-        elif self.pamset["lifetime_mode"] == "WIGLEY":
+        elif self.pamset["lifetime_mode"] != "CONSTANT_from_file":
             q = q * (((conc_local / 1700.0)) ** (ch4_wigley_exp))
 
         q = q + 1.0 / self.df_gas["TAU2"]["CH4"] + 1.0 / self.df_gas["TAU3"]["CH4"]
-- 
2.43.0


From 17f08c2d47372927e6fb8429bdf37b0089080920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 24/31] fix: parameter values of numpy types were replaced by
 default values

---
 src/ciceroscm/_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..06f80ae 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -4,6 +4,8 @@ Class for common utility functions
 
 import logging
 
+import numpy as np
+
 LOGGER = logging.getLogger(__name__)
 
 
@@ -35,7 +37,11 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+            continue
+        if isinstance(pamset[pam], np.number):
+            # numpy types might overflow in later calculations
+            pamset[pam] = pamset[pam].item()
+        if not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,6 +148,8 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
+        if isinstance(value, np.number):
+            value = value.item()
         if not isinstance(value, int) and not isinstance(value, float):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
-- 
2.43.0


From 145cea3eedbc1c4c927620194fa0806594efb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 25/31] fix: carbon cycle outputs were included also when
 turned off

---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index f319987..a5b0824 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -957,7 +957,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs", False):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1030,7 +1030,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs", False):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
-- 
2.43.0


From 389636b8ca6ac659fa0a79b9639b52456bfd126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 26/31] fix: results of the two-layer model could not be
 written to files

---
 src/ciceroscm/ciceroscm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index fa4b74d..2c256f8 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -367,7 +367,9 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            # Not all thermal models have hemispheric results
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -385,7 +387,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0


From 2e9886c8d1dfbac64642ef3d13748e7f0a0a5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 27/31] fix: carbon cycle output file had no years

---
 .../concentrations_emissions_handler.py         | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index a5b0824..3e819a6 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -939,6 +939,8 @@ class ConcentrationsEmissionsHandler:
         }
         for outtype, df in results_dict.items():
 
+            if "Year" not in df.columns:
+                df = df.rename_axis("Year").reset_index()
             df.to_csv(
                 os.path.join(
                     outdir, f"{filename_start}_{longname_shortname_dict[outtype]}.txt"
@@ -957,21 +959,6 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if cfg.get("carbon_cycle_outputs", False):
-            # Adding carbon cycle outputs here
-            # Typically back_calculated emissions for conc_run
-            # Airborne fraction
-            # biosphere carbon flux
-            # Ocean carbon flux
-            # Yearly fluxes
-
-            results_dict["carbon cycle"].to_csv(
-                os.path.join(outdir, f"{filename_start}_carbon.txt"),
-                sep="\t",
-                index=False,
-                float_format="%.5e",
-            )
-
     def add_results_to_dict(self, cfg, feedback_dict_series=None):
         """
         Add results to results dictionary
-- 
2.43.0


From 886f2c36a9ef6dbf3fcb44be645c61710d5d7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 28/31] fix: first forcing agent was left out of the plots and
 the year drawn as one

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..d0f36ae 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -170,7 +170,7 @@ def plot_output2(
             labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"], axis=1
         )
     years = df_in["Year"]
-    comps = df_in.columns[1:]
+    comps = [comp for comp in df_in.columns if comp != "Year"]
     for c, comp in enumerate(comps):
         if c in [0, 16, 32]:
             maxrows = 4
-- 
2.43.0


From 49b02a40046e7388b23b88149c39ccfa2cdd8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 29/31] fix: plots of 33 to 36 species failed

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index d0f36ae..b2d4437 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -177,7 +177,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, squeeze=False, figsize=(15, 10)
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From ef7984d6bae9245468e75f80855a8286d27ea675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 30/31] fix: results of the two-layer model could not be
 plotted

---
 src/ciceroscm/make_plots.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index b2d4437..2ceff99 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,10 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    for comp, linestyle in [("RIB_N", ":"), ("RIB_S", "--")]:
+        # Not all thermal models have hemispheric results
+        if comp in results:
+            axs[1].plot(indices, results[comp], label=comp, linestyle=linestyle)
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +92,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +109,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 1f4031208cbfe75331c66dd40c638c4ec545bed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:45 +0000
Subject: [PATCH 31/31] fix: ocean flux of a concentration series needed
 temperatures

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..2f94b65 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -730,7 +730,10 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
         # TODO: Don't redo this if back-calculation is already done...
         if conc_run and co2_conc_series is not None and redo_back_calculation:
             self.back_calculate_emissions(
-                co2_conc_series, feedback_dict_series={"dtemp": dtemp_series}
+                co2_conc_series,
+                feedback_dict_series=(
+                    None if dtemp_series is None else {"dtemp": dtemp_series}
+                ),
             )
         ocean_carbon_flux = (
             np.array(
-- 
2.43.0

