From 05c24b17af2f4a25a4aef75c3a193991ef1c7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 1/6] fix: convert units before using magnitudes in the impulse
 response heat uptake

`_calculate_next_rndt` took the magnitude of the equivalent two-layer lambda0
and efficacy term in whatever units came out of the parameters, so e.g. q1 in
mdelta_degC/(W/m^2) gave a wrong heat uptake (or an AssertionError if the
efficacy was not one).
---
 src/openscm_twolayermodel/impulse_response_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..a0bd560 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -236,10 +236,11 @@ class ImpulseResponseModel(
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
             )
 
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+        # the model's parameters can have any convertible units, hence so can these
+        lambda0_mag = lambda0.to("W/m^2/delta_degC").magnitude
+        efficacy_term_mag = efficacy_term.to(self._rndt_unit).magnitude
 
-        out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
+        out = erf - lambda0_mag * (t1 + t2) - efficacy_term_mag
 
         return out
 
-- 
2.43.0


From 3cabd16de467eeb33a4755134ac88f3dc6bd969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 2/6] fix: do not modify the scenarios passed to run_scenarios

Building an `ScmRun` from a `pd.DataFrame` resets the index and renames the
columns of that very DataFrame, hence `run_scenarios` altered the data of its
caller.
---
 src/openscm_twolayermodel/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..a2e6251 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -1,6 +1,7 @@
 """
 Module containing the base for model implementations
 """
+import copy
 from abc import ABC, abstractmethod
 
 import numpy as np
@@ -135,7 +136,8 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
-            driver = ScmRun(scenarios)
+            # copy as ScmRun formats the data it is given in place
+            driver = ScmRun(copy.deepcopy(scenarios))
         else:
             driver = scenarios.copy()
 
-- 
2.43.0


From 9a13bad5f705c642cf92313634da7005bca2849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 3/6] fix: select the time step from each scenario rather than
 from all of them

The time step was derived from the union of the time axes of all scenarios, so
a scenario with missing years (or with another resolution) was silently run
with a wrong time step, depending on which other scenarios it was run with.
---
 src/openscm_twolayermodel/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index a2e6251..a640d75 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -225,9 +225,6 @@ class TwoLayerVariant(Model):
         for k, v in save_paras_meta.items():
             driver[k] = v
 
-        timestep = self._select_timestep(driver)
-        self.delta_t = timestep
-
         run_store = list()
 
         driver_ts = driver.timeseries()
@@ -240,13 +237,14 @@ class TwoLayerVariant(Model):
             meta = dict(zip(driver_ts.index.names, label))
             row_no_nan = row.dropna()
 
+            out_run_tss_base = row_no_nan.to_frame().T
+            out_run_tss_base.index.names = driver_ts.index.names
+
+            self.delta_t = self._select_timestep(ScmRun(out_run_tss_base.copy()))
             self.set_drivers(row_no_nan.values * ur(meta["unit"]))
             self.reset()
             self.run()
 
-            out_run_tss_base = row_no_nan.to_frame().T
-            out_run_tss_base.index.names = driver_ts.index.names
-
             out_run_tss = [out_run_tss_base]
             out_run_tss += self._get_run_output_tss(out_run_tss[0])
 
-- 
2.43.0


From df7302ff1ac57dce52fc0c181887f271eae367d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 4/6] fix: raise the documented errors for forcing without a
 shape

`set_drivers` raised an AttributeError, rather than the documented
AssertionError, for a scalar quantity and, rather than a TypeError, for a
sequence which is not a quantity.
---
 src/openscm_twolayermodel/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index a640d75..f615172 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -128,7 +128,7 @@ class TwoLayerVariant(Model):
         AssertionError
             ``erf`` is not one-dimensional
         """
-        if len(erf.shape) != 1:
+        if np.ndim(erf) != 1:
             raise AssertionError("erf must be one-dimensional")
 
         self.erf = erf
-- 
2.43.0


From f4b45db5d46eb2964d9436286f265b9da8b5aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 5/6] fix: never raise from version discovery when a git
 command fails

get_versions raised TypeError or AttributeError when 'git rev-list' or
'git show' failed (e.g. a missing parent commit, an unparsable git
configuration) and UnicodeDecodeError when git printed a tag or path that is
not valid UTF-8, so that the package could not be imported.
---
 src/openscm_twolayermodel/_version.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/openscm_twolayermodel/_version.py b/src/openscm_twolayermodel/_version.py
index 4e6edcd..82a2241 100644
--- a/src/openscm_twolayermodel/_version.py
+++ b/src/openscm_twolayermodel/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode("utf-8", "replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -295,12 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
-    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is not None:
+        date = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
+    pieces["date"] = date
 
     return pieces
 
-- 
2.43.0


From e803b8c832134d3d93b8af16b7bdc2aefb8b0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 6/6] fix: run driver series that differ only in climate_model
 or parameter columns

run_scenarios overwrote climate_model (and the parameter columns) of all the
driver series before separating them, so that scenarios differing in nothing
else raised NonUniqueMetadataError although each of them can be run alone.
---
 src/openscm_twolayermodel/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index f615172..04a9989 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -221,10 +221,6 @@ class TwoLayerVariant(Model):
                 "No World data available for driver_var `{}`".format(driver_var)
             )
 
-        driver["climate_model"] = self._name
-        for k, v in save_paras_meta.items():
-            driver[k] = v
-
         run_store = list()
 
         driver_ts = driver.timeseries()
@@ -249,6 +245,10 @@ class TwoLayerVariant(Model):
             out_run_tss += self._get_run_output_tss(out_run_tss[0])
 
             out_run = ScmRun(pd.concat(out_run_tss))
+            # only now as drivers can differ in nothing but these columns
+            out_run["climate_model"] = self._name
+            for k, v in save_paras_meta.items():
+                out_run[k] = v
             out_run["run_idx"] = i
 
             run_store.append(out_run)
-- 
2.43.0

