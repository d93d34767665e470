From 7f6e2593681aef765c152ddc6c34c8c698c755e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:39 +0000
Subject: [PATCH 01/11] fix: a reference that fails to calibrate once is no
 longer excluded forever

calibrate() stored reference_good = ~isnan(titrant_molinity_here) in the
dataset, so a transient read failure excluded that reference material from
every later calibration.  Uncalibrated references are already left out by
get_group_calibration.
---
 calkulate/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 1b62fbf..bd1e9f6 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -157,7 +157,9 @@ def calibrate(ds, verbose=False, **kwargs):
     if "analysis_batch" not in ds:
         ds["analysis_batch"] = 0
     if "reference_good" not in ds:
-        ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
+        # References that could not be calibrated this time are excluded by
+        # get_group_calibration, so they remain usable the next time
+        ds["reference_good"] = ds.alkalinity_certified.notnull()
     batches = get_batches(ds)
     ds["titrant_molinity"] = batches.loc[
         ds.analysis_batch, "titrant_molinity"
-- 
2.43.0


From ff9517e71694925e739548867d8acf56e80bb704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:39 +0000
Subject: [PATCH 02/11] fix: gran_emf0s no longer alters the process-wide
 warning filters

warnings.catch_warnings is not thread-safe: two interleaved calls left the
extra filter installed for good (or removed filters of other threads).
---
 calkulate/core.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 355085f..4445d8e 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -29,7 +29,6 @@ calibrate_emf
 calibrate_pH
 """
 
-import warnings
 from collections import namedtuple
 from warnings import warn
 
@@ -263,12 +262,8 @@ def gran_emf0s(
     array-like float
         Gran EMF0 estimator (DAA03 eq. 11).
     """
-    with warnings.catch_warnings():
-        warnings.filterwarnings(
-            "ignore",
-            category=RuntimeWarning,
-            message="invalid value encountered in log",
-        )
+    # Don't use warnings.catch_warnings here: it is not thread-safe
+    with np.errstate(invalid="ignore"):
         emf0s = emf - (
             constants.ideal_gas
             * (temperature + constants.absolute_zero)
-- 
2.43.0


From e76b68ec13bdc974a3f4135b3a9c22ada24b61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:06 +0000
Subject: [PATCH 03/11] fix: calibrating no longer modifies the caller's totals

The titrant's contribution was added to the caller's totals in place and
subtracted again after each step, which left rounding residue, left the
totals corrupted if the step failed or was interrupted, and exposed half
-way values to other threads sharing the totals.
---
 calkulate/core.py | 43 ++++++++++---------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/calkulate/core.py b/calkulate/core.py
index 4445d8e..38485bf 100644
--- a/calkulate/core.py
+++ b/calkulate/core.py
@@ -30,6 +30,7 @@ calibrate_pH
 """
 
 from collections import namedtuple
+from copy import deepcopy
 from warnings import warn
 
 import numpy as np
@@ -876,9 +877,10 @@ def _lsqfun_calibrate_emf(
     **titrant_totals,
 ):
     """Calculate residuals for the calibrator."""
-    # Add titrant to totals (only relevant for H2SO4 etc. titrant)
+    # Add titrant to totals (only relevant for H2SO4 etc. titrant), working on
+    # a copy because add_titrant_totals operates in-place
     totals = add_titrant_totals(
-        totals,
+        deepcopy(totals),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -901,15 +903,6 @@ def _lsqfun_calibrate_emf(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1016,9 +1009,10 @@ def _lsqfun_calibrate_pH(
     **titrant_totals,
 ):
     """Calculate residuals for the calibrator."""
-    # Add titrant to totals (only relevant for H2SO4 etc. titrant)
+    # Add titrant to totals (only relevant for H2SO4 etc. titrant), working on
+    # a copy because add_titrant_totals operates in-place
     totals = add_titrant_totals(
-        totals,
+        deepcopy(totals),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1038,15 +1032,6 @@ def _lsqfun_calibrate_pH(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
@@ -1136,9 +1121,10 @@ def _lsqfun_calibrate_pH_gran(
     **titrant_totals,
 ):
     """Calculate residuals for the calibrator."""
-    # Add titrant to totals (only relevant for H2SO4 etc. titrant)
+    # Add titrant to totals (only relevant for H2SO4 etc. titrant), working on
+    # a copy because add_titrant_totals operates in-place
     totals = add_titrant_totals(
-        totals,
+        deepcopy(totals),
         titrant_mass,
         analyte_mass,
         titrant_molinity,
@@ -1158,15 +1144,6 @@ def _lsqfun_calibrate_pH_gran(
         pH_max=pH_max,
         titrant_normality=titrant_normality,
     )
-    # Revert to original totals
-    totals = add_titrant_totals(
-        totals,
-        titrant_mass,
-        analyte_mass,
-        0,
-        titrant_molinity_prev=titrant_molinity,
-        **titrant_totals,
-    )
     return sr.alkalinity - alkalinity_certified
 
 
-- 
2.43.0


From 1f85741eb0373e0f4f7a90a66f0e0425c134d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:06 +0000
Subject: [PATCH 04/11] fix: blank optional metadata no longer breaks making a
 Titration

Blank (NaN) values in a Dataset row were passed to the solver as if they had
been supplied, unlike when solving the Dataset itself.
---
 calkulate/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 8ac59d5..dddd196 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -173,7 +173,8 @@ class Titration:
         self.kwargs = _backcompat(kwargs, row)
         for k, v in kwargs.items():
             self.row[k] = v
-        self.sr = solve(**self.row)
+        # Drop blank values so that the defaults get used, like for a Dataset
+        self.sr = solve(**self.row[self.row.notnull()])
         self.t = {
             "titrant_mass": self.sr.titrant_mass,
             "temperature": self.sr.temperature,
-- 
2.43.0


From 036643eea5a643bc7930a7c8e52616ee3c686cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:06 +0000
Subject: [PATCH 05/11] fix: dataset plots save their own figure, not pyplot's
 current one

With two threads plotting, tight_layout and savefig acted on whichever
figure happened to be current.
---
 calkulate/plot/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calkulate/plot/__init__.py b/calkulate/plot/__init__.py
index cca12ae..c5e3cd4 100644
--- a/calkulate/plot/__init__.py
+++ b/calkulate/plot/__init__.py
@@ -57,9 +57,9 @@ def titrant_molinity(
     misc.add_credit(ax)
     ax.set_xlabel(xlabel)
     ax.set_ylabel(r"Titrant molinity / mol$\cdot$kg$^{-1}$")
-    plt.tight_layout()
+    fig.tight_layout()
     if figure_fname is not None:
-        plt.savefig(figure_fname)
+        fig.savefig(figure_fname)
     return fig, ax
 
 
@@ -121,7 +121,7 @@ def alkalinity_offset(
     ax.set_ylabel(
         r"$\Delta$ Alkalinity (measured $-$ certified) / mol$\cdot$kg$^{-1}$"
     )
-    plt.tight_layout()
+    fig.tight_layout()
     if figure_fname is not None:
-        plt.savefig(figure_fname)
+        fig.savefig(figure_fname)
     return fig, ax
-- 
2.43.0


From 9671ecc8fb264997d490a04e0e0e188431ab26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 06/11] fix: PC LIMS rows with negative values are no longer
 silently dropped

A negative EMF (usual above pH ~7 for many electrodes) did not match the
data-line pattern, so leading rows were skipped, or everything from that row
on was cut off, without any error.
---
 calkulate/read/titrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calkulate/read/titrations.py b/calkulate/read/titrations.py
index ab45ee3..30a50a6 100644
--- a/calkulate/read/titrations.py
+++ b/calkulate/read/titrations.py
@@ -46,7 +46,7 @@ def read_dat_pclims(
     with open(file_name, mode="r", encoding="unicode-escape") as f:
         data_full = f.read().splitlines()
     # Select only the lines containing the titration data
-    re_data = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
+    re_data = re.compile(r"-?[\d\.]*" + r"\t-?[\d\.]*" * (n_cols - 1))
     data = []
     i = 0
     stop = False
-- 
2.43.0


From 520e350fcd66639f6e8acd2ae4488b361b2f5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:00 +0000
Subject: [PATCH 07/11] fix: results stay blank if storing a titration's
 results fails half-way

add_solve_results filled the blank results in place, so an error part-way
through it (e.g. running out of memory) returned partial results for a
titration that is reported as failed.
---
 calkulate/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index bd1e9f6..51b6483 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -221,7 +221,8 @@ def solve_row(row, verbose=False, **kwargs):
                 row.salinity,
                 **kwargs_solve,
             )
-            solved = add_solve_results(solved, sr)
+            # Use a copy so that `solved` stays blank if this doesn't complete
+            solved = add_solve_results(solved.copy(), sr)
         except Exception as e:
             print(f'Error solving "{row.file_name}":')
             print(f"{e}")
-- 
2.43.0


From b218725e92ccc73d806e6db2129843e8243fb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:53 +0000
Subject: [PATCH 08/11] fix: the DIC-loss model no longer fails with current
 NumPy

least_squares passes the coefficient as a one-element array, which NumPy
refuses to store in an array element, so every call raised ValueError.
---
 calkulate/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/calkulate/loss.py b/calkulate/loss.py
index 4cf9918..1c53b28 100644
--- a/calkulate/loss.py
+++ b/calkulate/loss.py
@@ -35,7 +35,7 @@ def _lsqfun_dic_loss_model(
 ):
     return (
         dic_loss_model_fitted(
-            k_dic_loss,
+            k_dic_loss[0],
             i_titrant_mass,
             i_delta_fCO2,
             dic_start,
@@ -174,7 +174,7 @@ def get_dic_loss_hires(
             i_dic_loss,
         ),
     )
-    k_dic_loss = k_dic_loss_opt_result["x"]
+    k_dic_loss = k_dic_loss_opt_result["x"][0]
     # Calculate DIC from k_dic_loss in the fitted region
     i_dic = dic_loss_model_fitted(
         k_dic_loss,
@@ -202,7 +202,7 @@ def get_dic_loss_hires(
         step_tm,
         fCO2_air=fCO2_air,
     )
-    return k_dic_loss[0], {
+    return k_dic_loss, {
         "titrant_mass": a_titrant_mass,
         "pH": a_pH,
         "dic": np.concatenate((i_dic, f_dic)),
-- 
2.43.0


From 71707add6ac158a24a8c6ddb26c99e3dfb2c11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 09/11] fix: a Titration without a file_path can be displayed

---
 calkulate/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index dddd196..6790107 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -222,17 +222,17 @@ class Titration:
             raise AttributeError(key)
 
     def __str__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def __repr__(self):
-        if "file_path" in self.row:
+        if "file_path" in self.row and pd.notnull(self.row.file_path):
             f = os.path.join(self.row.file_path, self.row.file_name)
         else:
-            f = self.ro.file_name
+            f = self.row.file_name
         return f'calkulate.Titration for file "{f}"'
 
     def get_alkalinity_from_acid(self):
-- 
2.43.0


From 99a0485ebdb6248c11f7ab5a331d82813d6a604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:35 +0000
Subject: [PATCH 10/11] fix: a Titration can be copied and pickled

---
 calkulate/classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/calkulate/classes.py b/calkulate/classes.py
index 6790107..64617d4 100644
--- a/calkulate/classes.py
+++ b/calkulate/classes.py
@@ -206,6 +206,9 @@ class Titration:
 
     def __getattr__(self, attr):
         # Enable using self.attr as a shortcut for self.row.attr
+        if attr == "row":
+            # Not there yet while being copied or unpickled
+            raise AttributeError(attr)
         try:
             return object.__getattribute__(self, attr)
         except AttributeError:
-- 
2.43.0


From 3cdc5642ad3d339bb0eba068fd1e59d992e63837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:39 +0000
Subject: [PATCH 11/11] fix: a titration without an analysis_batch no longer
 stops the whole calibration

---
 calkulate/dataset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/calkulate/dataset.py b/calkulate/dataset.py
index 51b6483..aec7c89 100644
--- a/calkulate/dataset.py
+++ b/calkulate/dataset.py
@@ -161,9 +161,11 @@ def calibrate(ds, verbose=False, **kwargs):
         # get_group_calibration, so they remain usable the next time
         ds["reference_good"] = ds.alkalinity_certified.notnull()
     batches = get_batches(ds)
-    ds["titrant_molinity"] = batches.loc[
-        ds.analysis_batch, "titrant_molinity"
-    ].to_numpy()
+    # (titrations without an analysis_batch don't get any titrant_molinity)
+    batches = batches.reindex(
+        index=ds.analysis_batch, columns=["titrant_molinity"]
+    )
+    ds["titrant_molinity"] = batches.titrant_molinity.to_numpy()
     print("Calkulate: calibration complete!")
     ds = solve(ds, verbose=verbose, **kwargs)
     return ds
-- 
2.43.0

