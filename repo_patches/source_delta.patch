From bbaa934276ff0162d849d1504f0dfd5424528f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 01/15] fix: do not truncate the omegalm arrays of the user's
 dataDict

process_data_dict truncates the modes before the merger in place. amplm and
phaselm are copied to new dictionaries, but omegalm was the dictionary provided
by the user, so a second measurement with the same dataDict failed.
---
 gw_eccentricity/eccDefinition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..6c69eba 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,8 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            amp_phase_omega_dict.update(
+                {"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
@@ -656,7 +657,7 @@ class eccDefinition:
         # add omegalm_zeroecc if zeroecc data is provided
         if "omegalm_zeroecc" in dataDict:
             amp_phase_omega_dict.update(
-                {"omegalm_zeroecc": dataDict["omegalm_zeroecc"]})
+                {"omegalm_zeroecc": dict(dataDict["omegalm_zeroecc"])})
         # Look for zeroecc phaselm is amp_phase_omega_dict and compute
         # omegalm_zeroecc from it if phaselm_zeroecc is present
         elif "phaselm_zeroecc" in amp_phase_omega_dict \
-- 
2.43.0


From 0d2bf6da2ed4dbee4b1363b366f39dfb4488df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 02/15] fix: do not shift the user's time array in place when
 finding extrema

FrequencyFits/AmplitudeFits shifted self.t, a view of dataDict['t'], by t_merger
and back, changing the user's times by round-off, and leaving them shifted when
finding the extrema raised an exception.
---
 .../eccDefinitionUsingFrequencyFits.py        | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..0c226b1 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -169,6 +169,23 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         -------
         array of positions of extrema.
         """
+        # The fit function assume the merger to be at t=0. So we align the time
+        # axis such that merger occurs at t=0 while finding the extrema. This
+        # is done on a new array since self.t may share memory with the time
+        # array provided by the user. The original time axis is restored at the
+        # end, even when finding the extrema fails.
+        t_original = self.t
+        self.t = t_original - self.t_merger
+        try:
+            return self._find_extrema_with_merger_at_zero(extrema_type)
+        finally:
+            self.t = t_original
+
+    def _find_extrema_with_merger_at_zero(self, extrema_type="pericenters"):
+        """Find the extrema in the data with self.t such that merger is at t=0.
+
+        See `find_extrema`.
+        """
         # STEP 0 - setup
 
         if extrema_type == "pericenters":
@@ -177,12 +194,6 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
             sign = -1
         else:
             raise Exception(f"extrema_type='{extrema_type}' unknown.")
-        
-        # The fit function assume the merger to be at t=0. So we align the time
-        # axis such that merger occurs at t=0.
-        # After the peaks are found, the time is reshifted to to its original
-        # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -448,9 +459,6 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                                   np.array(data_extrema_refined),
                                   np.array(phase_gw_extrema_refined)]
 
-        # Now that we are done with finding peaks, we shift the time axis to
-        # it's original values
-        self.t += self.t_merger
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From 38174f07720606436ec470da21e6a90ec30e6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 03/15] fix: do not modify the user's extra_kwargs for
 precessing systems

---
 gw_eccentricity/eccDefinition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6c69eba..99ab36e 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -477,8 +477,8 @@ class eccDefinition:
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
             # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # Make a copy to avoid modifying the dictionary provided by the user.
+            extra_kwargs = {} if extra_kwargs is None else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From 73943b5b3484006a1dc80b2796e4e9710554dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 04/15] fix: transform amplm/phaselm zeroecc modes to the
 coprecessing frame

For precessing systems with amplm/phaselm in the inertial frame, transforming the
eccentric modes added both hlm and hlm_zeroecc to the user's dataDict. Then the
zeroecc call found hlm_zeroecc and kept the inertial amplm_zeroecc and
phaselm_zeroecc, which take precedence over the coprecessing hlm_zeroecc.
---
 gw_eccentricity/eccDefinition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 99ab36e..acdee87 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -957,7 +957,10 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # update a copy to avoid modifying the dictionary provided by the
+            # user.
+            data_dict = dict(data_dict)
+            data_dict["hlm" + tag] = hlm_dict["hlm" + tag]
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From 7171ed85d4f11617d1d112f03ca95a021ceec2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 05/15] fix: drop the extrema before a jump near the start of
 the data

As documented, only the extrema starting from the (i+1)-th one are to be kept,
but the i-th extremum, and hence the jump, was retained.
---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index acdee87..15909b5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1386,8 +1386,8 @@ class eccDefinition:
         if len(idx_too_small_ratio) > 0 and (idx_too_small_ratio[-1]
                                              < mid_index):
             last_idx = idx_too_small_ratio[-1]
-            last_pair_indices = [extrema_location[last_idx+1],
-                                 extrema_location[last_idx+2]]
+            last_pair_indices = [extrema_location[last_idx],
+                                 extrema_location[last_idx+1]]
             last_pair_times = [self.t[last_pair_indices[0]],
                                self.t[last_pair_indices[1]]]
             phase_diff_current = delta_phase_gw_extrema[last_idx+1]
@@ -1405,8 +1405,8 @@ class eccDefinition:
                 f"{extrema_type} before {last_pair_indices[1]}, i.e., t < t="
                 f"{last_pair_times[-1]} are therefore dropped.",
                 self.debug_level, important=False)
-            extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+            extrema_location = extrema_location[
+                extrema_location >= extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From cd9ee4504da0488ec75f9bd4849d0073e142d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 06/15] fix: drop the first extremum of a too close pair near
 the start of the data

As in the documented example, both extrema up to the first one of the pair are to
be dropped, but the pair was retained.
---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 15909b5..ea35945 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1457,7 +1457,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1466,12 +1466,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From 53c2eedd74ad3194394338a296bfed830246fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 07/15] fix: raise when tref_out is in the extrapolated region
 of the zeroecc data

self.dataDict contains amplm_zeroecc but never hlm_zeroecc, so that the check was
never made and the residual plots were never added.
---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index ea35945..1607fc0 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2441,8 +2441,8 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        if hasattr(self, "t_zeroecc_shifted") and (
+                self.tref_out[-1] > self.t_zeroecc_shifted[-1]):
             raise Exception("tref_out is in extrapolated region.\n"
                             f"Last element in tref_out = {self.tref_out[-1]}\n"
                             "Last element in t_zeroecc = "
@@ -3513,7 +3513,7 @@ class eccDefinition:
                          self.plot_decc_dt,
                          self.plot_phase_diff_ratio_between_extrema,
                          self.plot_omega_gw_average]
-        if "hlm_zeroecc" in self.dataDict:
+        if hasattr(self, "t_zeroecc_shifted"):
             # add residual amp_gw plot
             if self.method != "ResidualAmplitude":
                 list_of_plots.append(self.plot_residual_amp_gw)
-- 
2.43.0


From 60420add7aeca01384685902493c6ead68f69c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 08/15] fix: align the merger at t=0 to fit the secular trend
 of omega_gw

With fref_in and use_only_these_many_orbits, the fit assumes the merger to be at
t=0. For other choices of the time origin, the bounds of the fit were invalid or
the segment was a different one.
---
 gw_eccentricity/eccDefinition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 1607fc0..e4c706d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1987,11 +1987,14 @@ class eccDefinition:
             step = len(time) // 1000
             time = time[::step]
             omega = omega[::step]
-        # get the secular trend
-        secular_trend = QusicircularFitForMappingFrequencyToTime(time, omega)
+        # get the secular trend. The fit assumes the merger to be at t=0.
+        time_from_merger = time - self.t_merger
+        secular_trend = QusicircularFitForMappingFrequencyToTime(
+            time_from_merger, omega)
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
-        idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
+        idx = np.argmin(np.abs(secular_trend.model(time_from_merger, *res.x)
+                               - omega_ref))
         return time[idx]
         
     def get_amp_phase_omega_gw_segments(self):
-- 
2.43.0


From 51388d3769e95d240fff764e0ac080bafffcfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 09/15] fix: reference frequencies at the frequency bounds are
 no longer rejected by rounding

---
 gw_eccentricity/eccDefinition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index e4c706d..9490eb6 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3342,6 +3342,11 @@ class eccDefinition:
                                   self.t_for_omega_gw_average,
                                   spline_kwargs=self.general_interp_kwargs,
                                   check_kwargs=False)
+            # fref_out lies within the range of omega_gw_average. Rounding in
+            # the interpolation must not push the corresponding times outside
+            # the range where omega_gw_average is defined.
+            tref_in = np.clip(tref_in, self.t_for_omega_gw_average[0],
+                              self.t_for_omega_gw_average[-1])
             # check if tref_in is monotonically increasing
             if any(np.diff(tref_in) <= 0):
                 debug_message(f"tref_in from fref_in using method {method} is"
-- 
2.43.0


From 3551bf8a6d2e81aac6ff9baf4b781c2d8101ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 10/15] fix: use the earliest and latest reference points as
 the bounds of the segment

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 9490eb6..457d4e5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2057,13 +2057,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = np.min(self.tref_in), np.max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                np.min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    np.max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From f8b2a8a4ea04a9fe0fbecda171ad9e9e934d7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 11/15] fix: refuse any reference time beyond the quasicircular
 data, in whatever order they are given

---
 gw_eccentricity/eccDefinition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 457d4e5..14b07ef 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2445,9 +2445,9 @@ class eccDefinition:
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
         if hasattr(self, "t_zeroecc_shifted") and (
-                self.tref_out[-1] > self.t_zeroecc_shifted[-1]):
+                np.max(self.tref_out) > self.t_zeroecc_shifted[-1]):
             raise Exception("tref_out is in extrapolated region.\n"
-                            f"Last element in tref_out = {self.tref_out[-1]}\n"
+                            f"Latest time in tref_out = {np.max(self.tref_out)}\n"
                             "Last element in t_zeroecc = "
                             f"{self.t_zeroecc_shifted[-1]}.\nThis might happen"
                             " when 'num_orbits_to_exclude_before_merger' is "
-- 
2.43.0


From ad68b1ddff7b2c0ef9ead99144aa4d42c85a5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 12/15] fix: number of modes packed for frame rotation when
 ell_min is not 2

---
 gw_eccentricity/load_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..1ae8997 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1572,7 +1572,8 @@ def package_modes_for_scri(modes_dict, ell_min, ell_max):
     """
     keys = modes_dict.keys()
     shape = modes_dict[(2, 2)].shape
-    n_elem = (ell_max + 3) * (ell_max - 1)
+    # number of (ell, m) modes with ell_min <= ell <= ell_max
+    n_elem = (ell_max + 1)**2 - ell_min**2
     # Start with a result array with zeros, and populate only those modes that are
     # available in modes_dict. This is necessary because scri expects a list of modes in
     # a particular order.
-- 
2.43.0


From 0b910e314682ad99321ab11149348cdc5ba08b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 13/15] fix: treat a degenerate Arnoldi column the same way
 when evaluating as when fitting

---
 gw_eccentricity/rational_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/rational_fit.py b/gw_eccentricity/rational_fit.py
index 1759fd7..d7e3897 100644
--- a/gw_eccentricity/rational_fit.py
+++ b/gw_eccentricity/rational_fit.py
@@ -106,7 +106,7 @@ def _eval_arnoldi_basis(x, H, degree, v0_norm):
     for k in range(degree):
         with np.errstate(divide='ignore', over='ignore', invalid='ignore'):
             v = V[:, k] * x - V[:, :k+1] @ H[:k+1, k]
-        if H[k + 1, k] < 1e-14:
+        if H[k + 1, k] <= 1e-14:
             break
         V[:, k + 1] = v / H[k + 1, k]
     return V
-- 
2.43.0


From 5a2f30d3518ff60a0d943de84d9c33a1d54edd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 14/15] fix: end an MPI run with an empty sample selection
 normally

to_dataframe of an empty result list had no columns, so save_final raised
KeyError before the workers were told to stop, and the run hung.
---
 gw_eccentricity/postprocess/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..aabd642 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -1,6 +1,6 @@
 """Core postprocessing functions for measuring eccentricity from waveform modes."""
 from __future__ import annotations
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import logging
 import pandas as pd
 from ..gw_eccentricity import measure_eccentricity
@@ -21,7 +21,10 @@ class PostProcessResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of PostProcessResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        # Name the columns so that an empty list gives an empty table with the
+        # usual columns.
+        return pd.DataFrame([result.__dict__ for result in self.results],
+                            columns=[f.name for f in fields(PostProcessResult)])
 
     def success_only(self) -> list[PostProcessResult]:
         """Filter successful results."""
-- 
2.43.0


From 115b828ca18d578f23a7ea09f154d4429e8d4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:13 +0000
Subject: [PATCH 15/15] fix: low-pass mask with zero taper width is a sharp
 cutoff, not NaN

With taper_width = 0 the cutoff frequency, itself one of the frequencies,
was put into an empty taper and 0/0 made the whole filtered data NaN.
---
 gw_eccentricity/spin_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..522f0ba 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -368,7 +368,7 @@ def _make_lowpass_mask(frequencies, f_cutoff, taper_width):
 
     mask = np.ones(len(frequencies))
     # cosine taper in the transition band [f_low, f_high]
-    taper_region = np.logical_and(frequencies >= f_low, frequencies <= f_high)
+    taper_region = np.logical_and(frequencies > f_low, frequencies <= f_high)
     mask[taper_region] = 0.5 * (
         1 + np.cos(np.pi * (frequencies[taper_region] - f_low) / (f_high - f_low))
     )
-- 
2.43.0

