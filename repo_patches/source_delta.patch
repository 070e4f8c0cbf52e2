From f448307db3c945d7fa5a01b7377ea43d329c10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 01/23] fix: keep the stress unit when adding, scaling,
 resolving or correcting

The new CycleCount was built without the unit, so it silently fell back
to MPa for data counted in any other unit.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 9183b847540eee60da6bba5d56ea2f8fab456320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 02/23] fix: keep small cycles and timestamps when scaling a
 cycle count

Multiplying by a stress concentration factor reset the number of small
cycles to zero and forgot the timestamps of the summed blocks.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..d444574 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From f1903e2f8324549ef921f374f15583c6fb4c8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 03/23] fix: return the input when LFFD is requested without
 residuals

A cycle count without a residuals sequence is documented to come back
unchanged with a warning, but the check failed with UnboundLocalError.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d444574..1a843cc 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, None
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From b73cf01c031268d5d520ff520c22dcab23b26f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 04/23] fix: resolve LFFD when the residuals hold no further
 cycle

A residuals sequence with a single reversal, such as the one counted from
[0, 10, 8, 9, -1], has nothing left to resolve. solve_lffd and
mean_stress_correction failed on it with a zero-size array error.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 1a843cc..d98c287 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1733,6 +1733,11 @@ def _solve_lffd(
         data=res_seq,
         extended_output=True,
     )
+    if len(res_rf) == 0:
+        w_msg = "No cycles found in the residuals sequence. Nothing to do."
+        warnings.formatwarning = py_fatigue_formatwarning
+        warnings.warn(w_msg, UserWarning)
+        return self_
 
     cc_res = CycleCount(
         count_cycle=res_rf[:, 2],
-- 
2.43.0


From 875bd29b7ab47809a6da4fa81a4c44d09bef423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 05/23] fix: do not overwrite the caller's mean stress in the
 correction

Enforcing pulsating load on a cycle count too short for LFFD replaced the
mean stresses of the original object.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d98c287..5d57c48 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1127,6 +1127,7 @@ class CycleCount:
             )
             raise ValueError(e_msg)
         if np.all((self_.mean_stress == 0)) and enforce_pulsating_load:
+            self_ = copy.copy(self_)
             self_.mean_stress = self_.stress_amplitude
 
         ns = SimpleNamespace(**kwargs)
-- 
2.43.0


From 42cc9ce3ef2000a4f06fd779274bf033eeb1007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 06/23] fix: import rainflow dictionaries that have no
 residuals

The presence of mean stresses was read off the first residual, so a
histogram without half cycles failed with IndexError.
---
 py_fatigue/cycle_count/cycle_count.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 5d57c48..4e0f362 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -141,9 +141,13 @@ def _build_input_data_from_json(  # noqa: C901
             data[k] = np.array(v) if isinstance(v, list) else v
     for hst in data["hist"]:
         hst = np.array(hst)
+    has_mean_stress = any(
+        len(data[k]) > 0 and isinstance(data[k][0], Iterable)
+        for k in ("hist", "lg_c", "res")
+    )
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not has_mean_stress:
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -159,11 +163,7 @@ def _build_input_data_from_json(  # noqa: C901
         the_hist = np.delete(the_hist, zero_hist_counts)
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
-    if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
-    ):
+    if len(data["lg_c"]) > 0 and not has_mean_stress:
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
     # Adding residual cycles
-- 
2.43.0


From 1dae02c9328f9fd20db4b0954e398d3c5e497cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 07/23] fix: export the small cycles a cycle count already
 carries

as_dict only reported the cycles it dropped itself, so the small cycles of
an imported or summed cycle count disappeared.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 4e0f362..54a6328 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = np.asarray(
             np.round(self.residuals_sequence, round_decimals)
         ).tolist()
-- 
2.43.0


From ef805386e9a60f2c7f3092df74af232ad0f9a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 08/23] fix: drop the empty rows rainflow returns for flat
 signal starts

A signal starting or ending on repeated values, such as
[5, 5, 7, 3, 8, 2, 2, 6], gave trailing rows of zeros that were reported
as cycles with no range and no count.
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..8c67f24 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,9 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    # repeated values (e.g. a flat start) produce no cycle: drop unused rows
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 9ec3e7022a09b7f81ba364786610744e7fde6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 09/23] fix: accept sampled times in binned_rainflow

With a time array rainflow returns four items, so unpacking three failed.
---
 py_fatigue/cycle_count/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..bdd4176 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,11 +585,11 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-    )
+    )[:2]
 
     # return rfs, data[res_tp], res_tp, time[res_tp]
 
-- 
2.43.0


From ee0941e5e112c31b735e16325c26542830fb75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 10/23] fix: always provide at least one bin

When the largest full cycle does not exceed the lower bin edge there was
no bin at all, and exporting the cycle count failed.
---
 py_fatigue/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..4327b87 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -204,10 +204,15 @@ class FatigueStress:
                 - self.bin_width / 2
             )
         if self._bin_ub is None:
-            self._bin_ub = bin_upper_bound(
-                self._bin_lb,
-                self.bin_width,
-                max(self.full) if len(self.full) > 0 else max(self._values),
+            self._bin_ub = max(
+                bin_upper_bound(
+                    self._bin_lb,
+                    self.bin_width,
+                    max(self.full)
+                    if len(self.full) > 0
+                    else max(self._values),
+                ),
+                self._bin_lb + self.bin_width,
             )
 
     @property
-- 
2.43.0


From c449259e04772802317335488fb13fcbbff99917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 11/23] fix: keep the largest cycle inside the last bin

Bin edges are rounded to five decimals, so a largest stress range like
0.7000000000000001 landed one bin past the last and exporting the cycle
count failed with IndexError.
---
 py_fatigue/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 4327b87..9f9cc87 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -329,8 +329,15 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        bin_edges = self.bin_edges
+        digitized = np.digitize(self.full, bin_edges, right=True)
         digitized[np.where(digitized > 0)] -= 1
+        # the edges are rounded to 5 decimals: values up to the last
+        # (unrounded) edge belong to the last bin
+        digitized[
+            (digitized == len(bin_edges) - 1)
+            & (self.full <= bin_edges[-1] + 1e-5)
+        ] -= 1
         return digitized
 
     @property
-- 
2.43.0


From 35c4967afdd4abcbc694351162a396312c931c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 12/23] fix: invert the Paris curve on its first and last
 segments

get_sif returned the threshold for any growth rate on the first segment
and the critical value for any growth rate on the last one, so a curve
with a single segment was never inverted.
---
 py_fatigue/material/crack_growth_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..68ec0e7 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -785,12 +785,11 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     idx = np.digitize(growth_rate, knees_growth_rate, right=False) - 1
     # print("idx:", idx)
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
-    nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] >= intercept.size:  # above critical
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From f56f28a3540f358e3b475f496a938ed81615607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 13/23] fix: report an infinite growth rate at an infinite
 critical SIF

With the default critical value the lookup ran past the last segment and
critical_growth_rate was read from unrelated memory.
---
 py_fatigue/material/crack_growth_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 68ec0e7..c1e3f5f 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -741,7 +741,7 @@ def _calc_growth_rate(sif, slope, intercept, threshold, critical):
         if sif[i] < threshold:  # below threshold
             the_growth_rate[i] = 0
             continue
-        if sif[i] > critical:  # above threshold
+        if sif[i] > critical or sif[i] == np.inf:  # above critical
             the_growth_rate[i] = np.inf
             continue
         the_growth_rate[i] = intercept[idx[i]] * sif[i] ** slope[idx[i]]
-- 
2.43.0


From 991b88b2fef589aefb0d8f80b8ebafda02c63b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 14/23] fix: report no crack growth below the threshold

The zero growth rate set below the threshold was overwritten by the
following branch.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..d2beb50 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From e05de76cea1ef3a3e1627aedb2da9e2fdcd1f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:04 +0000
Subject: [PATCH 15/23] fix: accept the documented names of the nonlinear
 damage rules

'Pavlou', 'Manson-Halford', 'Si-Jian' and 'Leve' are documented but were
rejected because of their case and hyphens.
---
 py_fatigue/damage/stress_life.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..a1c0842 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -686,6 +686,7 @@ def calc_nonlinear_damage(
         "si jian",
         "si jian et al",
     ]
+    damage_rule = damage_rule.lower().replace("-", " ")
     if damage_rule not in allowed_rules:
         e_msg = f"damage_rule must be one of {allowed_rules}"
         raise ValueError(e_msg)
-- 
2.43.0


From 90e8c092bccb0b9539c6163c4e6286e25071c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:05 +0000
Subject: [PATCH 16/23] fix: report the endurance stress of single-slope SN
 curves

The endurance stress was always zero for a curve with one slope, even
with a finite endurance that get_stress and get_cycles do apply.
---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..25a3a77 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,7 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From c8037f1677a2d9b1e51c28e09480078313819303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:05 +0000
Subject: [PATCH 17/23] fix: grow the crack over the fractional part of a block
 too

A block of 2.5 cycles was split into 2 single cycles and the remaining
half cycle was never applied.
---
 py_fatigue/damage/crack_growth.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index d2beb50..72164d5 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -480,7 +480,11 @@ def get_crack_growth(
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            (
+                split(int(cycle), n) + [cycle % 1] * (cycle % 1 > 0)
+                if int(cycle) > 0
+                else [cycle]
+            )
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -605,7 +609,11 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                (
+                    split(int(cycle), n) + [cycle % 1] * (cycle % 1 > 0)
+                    if int(cycle) > 0
+                    else [cycle]
+                )
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
-- 
2.43.0


From b26f8ee88c5dfcbefe64e24faa0e7cd3eb296e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:05 +0000
Subject: [PATCH 18/23] fix: match crack growth results with the rows of the
 data frame

The last cycle of a clustered block was looked up from the cumulated
counts, which is wrong when blocks hold half cycles or are split by the
express mode, and failed with IndexError when the crack failed early.
---
 py_fatigue/damage/crack_growth.py | 33 +++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 72164d5..40b2866 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -627,6 +627,7 @@ class CrackGrowth:
         else:
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
+            splt_len = [1] * len(self._obj)
 
         # Handle the geometry
         crack_type = str(crack_geometry._id)
@@ -650,25 +651,19 @@ class CrackGrowth:
 
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
-        # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        # while the df keeps them clustered: each row reports the last cycle
+        # of its block, or nan if the failure occurred before that
+        idx = np.cumsum(splt_len) - 1
+        done = idx < len(cg_.crack_depth)
+        for col, values in {
+            "crack_depth": cg_.crack_depth,
+            "sif": cg_.sif,
+            "cumul_cycle": cumul_cycle,
+            "geometry_factor": cg_.geometry_factor,
+        }.items():
+            row_values = np.full(len(self._obj), np.nan)
+            row_values[done] = values[idx[done]]
+            self._obj[col] = row_values
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From f93b75c2adb8b387efbcdc532873cfe296aab276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:51 +0000
Subject: [PATCH 19/23] fix: compare a scalar or None with an array without
 raising

Comparing two cycle counts raised ValueError when the first had no
residuals sequence and the second had one.
---
 py_fatigue/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 9f9cc87..f67253c 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -480,7 +480,7 @@ def compare(a: Any, b: Any) -> bool:
     """
     # print(f"a: {a}, b: {b}")
     if not hasattr(a, "__iter__") or isinstance(a, str):
-        return a == b
+        return not isinstance(b, np.ndarray) and a == b
 
     try:
         if not len(a) == len(b):
-- 
2.43.0


From e34dd0f75345a3c66d70c4a3294ee13f8638ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:51 +0000
Subject: [PATCH 20/23] fix: export a cycle count that has no residuals
 sequence

as_dict raised TypeError for a cycle count imported from a histogram
without the residual signal.
---
 py_fatigue/cycle_count/cycle_count.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 54a6328..cf08357 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -664,8 +664,9 @@ class CycleCount:
             debug_mode=debug_mode,
         )
         output_dict["nr_small_cycles"] += self.nr_small_cycles
+        res_sig = self.residuals_sequence
         output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
+            np.round([] if res_sig is None else res_sig, round_decimals)
         ).tolist()
         return output_dict
 
-- 
2.43.0


From 3637734886c5ecb0787a9c3cafd81e276ab62566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:51 +0000
Subject: [PATCH 21/23] fix: hold the stress at the endurance stress beyond the
 endurance

The limit was taken from the last segment, so an SN curve whose last
slope is not the largest kept falling beyond its endurance.
---
 py_fatigue/material/sn_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 25a3a77..272e860 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -1059,7 +1059,7 @@ def _calc_stress(cycles, slope, intercept, endurance):
         the_stress[i] = np.exp(max_i)
     if endurance < np.inf:
         endurance_stress = np.exp(
-            (intercept[-1] * log10 - np.log(endurance)) / slope[-1]
+            np.max((intercept * log10 - np.log(endurance)) / slope)
         )
         the_stress[the_stress < endurance_stress] = endurance_stress
     return the_stress
-- 
2.43.0


From 3572af900b88f8ea0ba0b8c77035ff1c67b8c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:18 +0000
Subject: [PATCH 22/23] fix: save residuals of aggregated counts without a
 residual sequence

aggregate_cc(..., save_residuals=True) raised IndexError when a count had an
empty residual sequence, which is the default of a CycleCount.
---
 py_fatigue/cycle_count/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..053b20c 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -163,6 +163,8 @@ def aggregate_cc(
                 continue
             if not isinstance(row[col].residuals_sequence, Iterable):
                 continue
+            if len(row[col].residuals_sequence) == 0:
+                continue
             _, res_res_seq, res_res_idx = cycle_count.calc_rainflow(
                 data=np.asarray(row[col].residuals_sequence),
                 extended_output=True,
-- 
2.43.0


From cd7264737824df54ce377fa7ced7aecbd57eb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:18 +0000
Subject: [PATCH 23/23] fix: aggregate data frames with column names that are
 not strings

aggregate_cc averages such columns but then failed with AttributeError when it
looked for the columns of cycle counts.
---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 053b20c..039171d 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -268,7 +270,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0

