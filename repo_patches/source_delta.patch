From bdef15c9136afc223ac2a0cd07533290a0760226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:32 +0000
Subject: [PATCH 01/70] fix: validation reason for min_is_below names the
 violated threshold

---
 beep/structure/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c573068..c0017d0 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -198,7 +198,7 @@ class SimpleValidator:
                     value = dataframe[column_name].iloc[index]
                     reason = (
                         "{} needs to reach under {} for processing, instead found:"
-                        "value={}".format(column_name, max_at_least_rule, value)
+                        "value={}".format(column_name, min_is_below_rule, value)
                     )
                     return False, reason
 
-- 
2.43.0


From 6c5a9160bc49e432739215eeca812040b2194fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:51 +0000
Subject: [PATCH 02/70] fix: Maccor to BioLogic step times keep fractional
 hours, minutes and milliseconds

---
 beep/protocol/maccor_to_biologic_mb.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..b8c39bc 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -167,18 +167,20 @@ class MaccorToBiologicMb:
         mins = 0.0 if min_str == "" else float(min_str)
         secs = 0.0 if sec_str == "" else float(sec_str)
 
-        if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+        # only use a unit if the time is a whole number of it, otherwise
+        # the fractional part of the sections would be lost
+        if mins == 0.0 and secs == 0.0 and hours % 1.0 == 0.0:
+            return "{:.3f}".format(hours), "h"
 
-        if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
+        total_time_min = hours * 60 + mins
+        if secs == 0.0 and total_time_min % 1.0 == 0.0:
             return "{:.3f}".format(total_time_min), "mn"
 
-        if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
+        total_time_sec = total_time_min * 60 + secs
+        if total_time_sec % 1.0 == 0.0:
             return "{:.3f}".format(total_time_sec), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = total_time_sec * 1000
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From 178bcc59992e688f42393869ddeb20206c69ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:07 +0000
Subject: [PATCH 03/70] fix: apply every BioLogic sequence mapping, not only
 the last one

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index b8c39bc..1ad16eb 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -848,13 +848,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 776cefee4d8aefeb30361b96cb47b72c13584b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 04/70] fix: filter a single Maccor end entry by the BioLogic
 limits

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 1ad16eb..bad8f39 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -687,7 +687,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = end_entries if isinstance(end_entries, list) else [end_entries]
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 8ddc8d5468f6f4ec311b9b8decb0c95c0703ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 05/70] fix: cycle advancement rules count AdvCycle steps at
 the start of a loop body

---
 beep/protocol/maccor_to_biologic_mb.py | 45 +++++++++++++-------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index bad8f39..1845cd2 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1088,6 +1088,7 @@ class MaccorToBiologicMb:
 
             cycle_advances_on_tech_start = adv_cycle_count
             adv_cycle_count = 0
+            leading_cycle_advances = 0
 
             cycle_advances_by_step_transition = {}
 
@@ -1119,36 +1120,32 @@ class MaccorToBiologicMb:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
                     # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
-                        if prev_measurement_step_num == -1:
-                            raise Exception(
-                                (
-                                    "Loop end at step {} contains advance cycle with" + "no physical step in loop body"
-                                ).format(step_num)
-                            )
-
-                        looped_cycle_advances = adv_cycle_count
-                        for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
+                    looped_cycle_advances = adv_cycle_count
+                    for j in range(prev_loop_open + 1, i + 1):
+                        looped_step_num = j + tp.step_num_offset + 1
+                        looped_step_type = get(tp.steps[j], "StepType")
+                        if looped_step_type == "AdvCycle":
+                            looped_cycle_advances += 1
+                            continue
+
+                        if looped_cycle_advances > 0:
                             if looped_step_num == step_num:
                                 raise Exception("Loop end step {} contains no measurement steps".format(step_num))
-                            elif looped_step_num == prev_measurement_step_num:
+                            elif (
+                                looped_step_num == prev_measurement_step_num
+                                and len(tp.seq_nums_by_step_num[looped_step_num]) == 1
+                            ):
                                 raise Exception(
                                     (
                                         "step {} is the only measurement step in a loop that advances cycle index,"
                                         + " correct cycle index computation impossible"
                                     ).format(prev_measurement_step_num)
                                 )
-
-                            looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
-                                looped_cycle_advances += 1
-                            else:
-                                # assumption that step is measurement because there are
-                                # no interleaved loops and only other logical step is adv cycle
-                                transition = (prev_measurement_step_num, looped_step_num)
-                                cycle_advances_by_step_transition[transition] = looped_cycle_advances
-                                break
+                            # assumption that step is measurement because there are
+                            # no interleaved loops and only other logical step is adv cycle
+                            transition = (prev_measurement_step_num, looped_step_num)
+                            cycle_advances_by_step_transition[transition] = looped_cycle_advances
+                        break
 
                     prev_loop_open = -1
                 else:
@@ -1157,13 +1154,15 @@ class MaccorToBiologicMb:
 
                     if prev_measurement_step_num == -1:
                         cycle_advances_on_tech_start += adv_cycle_count
+                        leading_cycle_advances = adv_cycle_count
                     elif adv_cycle_count > 0:
                         transition = (prev_measurement_step_num, step_num)
                         cycle_advances_by_step_transition[transition] = adv_cycle_count
                     prev_measurement_step_num = step_num
                     adv_cycle_count = 0
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            # a loop passes the advances before the first measurement step again
+            cycle_advances_on_tech_loop = adv_cycle_count + leading_cycle_advances
 
             # TODO we should also check GOTO transitions as well
             # these should be done _after_ the Next Step and Loop cases
-- 
2.43.0


From aaede884407300fb0eaa2cfb06730295da6e4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:30 +0000
Subject: [PATCH 06/70] fix: Maccor step with a limit but no end conditions
 still ramps until the limit

Ends is None for such a step; pydash.set_ leaves a present None alone, so
the constant current (or voltage) part was written without any limit.
---
 beep/protocol/maccor_to_biologic_mb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 1845cd2..4e543a4 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -920,7 +920,8 @@ class MaccorToBiologicMb:
 
             filtered_end_entries.append(new_end_entry)
             new_end_entries = filtered_end_entries if len(filtered_end_entries) > 1 else filtered_end_entries[0]
-            set_(step_part_1, "Ends.EndEntry", new_end_entries)
+            # Ends may be None (no end conditions), set_ would leave it that way
+            step_part_1["Ends"] = OrderedDict([("EndEntry", new_end_entries)])
 
             set_(step_part_1, "StepNote", "Inserted by MaccorToBiologicConversion")
 
-- 
2.43.0


From 93a33558ce1bbbd313d5385dbf9a653eedac5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 07/70] fix: Maccor step times of a day or more do not wrap
 around

---
 beep/protocol/maccor.py | 77 +++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..c9dd770 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,22 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(time_s):
+    """
+    Formats a duration the way maccor procedures write step times. Unlike
+    the time of day, the hours of a duration do not wrap around at 24.
+
+    Args:
+        time_s (float): duration in seconds.
+
+    Returns:
+        str: duration as HH:MM:SS.
+    """
+    minutes, seconds = divmod(int(time_s), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +407,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +431,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -466,9 +475,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +528,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -814,9 +819,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -851,9 +854,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +882,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -932,9 +929,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1101,9 +1096,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1106,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1116,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1126,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1150,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From ebcc2c7d5f9610d0529be551b7c59349a9386042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:33 +0000
Subject: [PATCH 08/70] fix: Arbin schedule values with brackets and sections
 without entries can be read

---
 beep/protocol/arbin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..8a68d9a 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,10 +59,12 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        # Section headers are bracketed and on a line of their own,
+        # values may contain brackets as well
+        split_text = re.split(r"(?<![^\r\n])\[([^\r\n]+)\](?![^\r\n])", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
-            body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
+            body_dict = OrderedDict([line.split("=", 1) for line in body_lines if line])
             heading = heading.replace("_", ".")
             obj.set(heading, body_dict)
 
-- 
2.43.0


From ffd3b9b4454602dd1d13d774edcc50b528c56b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:33 +0000
Subject: [PATCH 09/70] fix: BioLogic settings files with several or short
 techniques survive reading and writing

---
 beep/protocol/biologic.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..31532bf 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -63,35 +63,39 @@ class Settings(DashOrderedDict):
         obj = cls()
         split_text = re.split(r"\r?\n|\r\n?", text)
 
-        extra_lines = list(range(len(split_text)))
+        lines_to_parse = list(range(len(split_text)))
         technique_lines = [
-            indx for indx, val in enumerate(split_text) if "Technique" in val
+            indx for indx, val in enumerate(split_text) if val.startswith("Technique :")
         ]
         technique_pos = []
-        for technique_start_line in technique_lines:
+        for technique_start_line, next_start_line in zip(
+            technique_lines, technique_lines[1:] + [len(split_text)]
+        ):
             technique_num = split_text[technique_start_line].split(":")[-1].strip()
             start = (
                 technique_start_line + 1
             )  # This +1 offset is based on the format seen in one file
-            end = start + step_entry_length
+            # Techniques can be shorter, e.g. the Loop technique
+            end = min(start + step_entry_length, next_start_line)
+            while end > start and split_text[end - 1] == "":
+                end -= 1
             technique_pos.append((technique_num, start, end))
             lines_to_parse = [
-                i for i in extra_lines if i not in list(range(start, end))
+                i for i in lines_to_parse if i not in range(start, end)
             ]
 
         section = "Metadata"
         metadata = []
         for line_num in lines_to_parse:
-            if ":" in split_text[line_num]:
-                if "Technique" in split_text[line_num]:
-                    metadata.append(
-                        [
-                            "_".join(split_text[line_num].split(" : ", 1)),
-                            split_text[line_num].split(":", 1)[-1].strip(),
-                        ]
-                    )
-                else:
-                    metadata.append(split_text[line_num].split(" : ", 1))
+            if line_num in technique_lines:
+                metadata.append(
+                    [
+                        "_".join(split_text[line_num].split(" : ", 1)),
+                        split_text[line_num].split(":", 1)[-1].strip(),
+                    ]
+                )
+            elif " : " in split_text[line_num]:
+                metadata.append(split_text[line_num].split(" : ", 1))
             elif split_text[line_num] == "":
                 metadata.append(["line{}".format(line_num), "blank"])
             else:
@@ -167,12 +171,11 @@ class Settings(DashOrderedDict):
                 continue
             elif data["Metadata"][meta_key] is None:
                 line = meta_key
-            elif data["Metadata"][meta_key] == "blank":
+            elif data["Metadata"][meta_key] == "blank" and re.fullmatch(r"line\d+", meta_key):
                 line = ""
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
             blocks.append(line)
-            data.unset(data["Metadata"][meta_key])
 
         contents = linesep.join(blocks)
 
-- 
2.43.0


From 50fb99753b7e26c6191c0e84698e620b61b56eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:33 +0000
Subject: [PATCH 10/70] fix: Maccor procedures are written in the requested
 encoding

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index c9dd770..0a4a0d2 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -155,7 +155,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 39b8f9b9bbc983634c15f13b2c93ecf3b0ed9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 11/70] fix: cycle interpolation accepts raw data with any row
 index

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..4d3f7aa 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -709,7 +709,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From 2879c0be8e77dc8e3bd788d5b28b7850969ab2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 12/70] fix: charge duration belongs to its own cycle when
 cycle indices do not start at 0

---
 beep/structure/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 4d3f7aa..6e76b90 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -827,6 +827,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
+        time_diff.index = merged.cycle_index
         summary["charge_duration"] = np.round(
             time_diff / np.timedelta64(1, "s"), 2)
 
-- 
2.43.0


From 6226d7383c570cde10104f2200e1f3fefa74619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 13/70] fix: summarizing cycles leaves no helper column in the
 raw data

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 6e76b90..3128176 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -852,7 +852,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From 232acca09dbfa9cb834c8f32cc6c4cc93d306b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 14/70] fix: cycle life is a cycle index and is defined when
 the capacity ends exactly at the threshold

---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 3128176..604b0c0 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1154,8 +1154,8 @@ class BEEPDatapath(abc.ABC, MSONable):
         # If capacity falls below 80% of initial capacity by end of run
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
-                self.structured_summary.discharge_capacity < threshold * max_capacity
-            ].index[0]
+                self.structured_summary.discharge_capacity / max_capacity <= threshold
+            ].cycle_index.iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From 7d9aa78fd3480ecdbe33e23b8813f39606051b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 15/70] fix: a step whose charge capacity changes only once or
 is missing is not taken for the opposite state

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 604b0c0..31f964c 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1354,7 +1354,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = False if avg_dchg_delta > 0 else None
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From c877139fe6dd7bef44fba28b742b2dc0c5d9308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:25 +0000
Subject: [PATCH 16/70] fix: a CV segment that starts with the charge is not
 reduced to its last point

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 31f964c..610c7b9 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1481,7 +1481,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i-1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From a4ffa271ccaef7bfd878715d7e5964a2c83d472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:43 +0000
Subject: [PATCH 17/70] fix: charge duration of cycles whose timestamps mix
 whole and fractional seconds

---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 610c7b9..08077d3 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -824,8 +824,8 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # Charge duration stored in seconds - note that date_time_iso is only ~1sec resolution
         time_diff = np.subtract(
-            pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
-            pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
+            pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce", format="mixed"),
+            pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce", format="mixed"),
         )
         time_diff.index = merged.cycle_index
         summary["charge_duration"] = np.round(
-- 
2.43.0


From 531550731225d93c3d2c5dc98d103e11044e3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:07 +0000
Subject: [PATCH 18/70] fix: cycles_to_capacities with a range that is not a
 multiple of the interval

---
 beep/structure/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 08077d3..daca987 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1175,11 +1175,9 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             pandas.DataFrame:
         """
-        discharge_capacities = pd.DataFrame(
-            np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
-        )
-        counter = 0
         cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
+        discharge_capacities = pd.DataFrame(np.zeros((1, len(cycle_indices))))
+        counter = 0
         for cycle_index in cycle_indices:
             try:
                 discharge_capacities[counter] = self.structured_summary.discharge_capacity.iloc[
-- 
2.43.0


From 0c75921ff1765d0dc65d9c8af9841ac4bd382e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 19/70] fix: an unstructured datapath saved with its raw data
 is still unstructured when loaded

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index daca987..89a774f 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From fd8acc04185ab19f0d2216987a3c395061775815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 20/70] fix: loading a run saved without raw data keeps its
 metadata

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 89a774f..1d5c1bd 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -434,7 +434,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # support loads when raw_data not available
         if any([k not in d for k in ("raw_data", "metadata")]):
             raw_data = None
-            metadata = {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
+            metadata = d.get("metadata") or {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
             is_legacy = True
         else:
             raw_data = pd.DataFrame(d["raw_data"])
-- 
2.43.0


From 480101c153070b68179d82b8c3a43c096910d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:50 +0000
Subject: [PATCH 21/70] fix: auto_load_processed records the absolute path of
 the structured file

---
 beep/structure/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..1d2de58 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -115,5 +116,5 @@ def auto_load_processed(path):
 
         # Processed object must have path manually appended
         # as loadfn cannot trigger .from_json_file directly
-        processed_obj.paths["structured"] = path
+        processed_obj.paths["structured"] = os.path.abspath(path)
         return processed_obj
-- 
2.43.0


From 60f2548c6be172025864646a0472d8315175e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 22/70] fix: discharging energy statistics of cycles come from
 their discharge steps

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..65c5209 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -188,9 +188,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From 2bb6d4e066883ab1a528f8fde450fb9b0cc5ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 23/70] fix: summary statistics features honour the number and
 order of the statistics hyperparameter

---
 beep/features/core.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 65c5209..ae08948 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,8 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 4 * n_stats)))
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +168,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0 * n_stats:1 * n_stats] = self.get_summary_statistics(QcDiff)
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +177,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, 1 * n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +185,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +195,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         quantities = [
             "charging_capacity",
@@ -233,23 +234,19 @@ class CycleSummaryStats(BEEPFeaturizer):
             raise ValueError(
                 f"Unsupported statistics in {stats_names}: supported statistics are {supported_stats}")
 
-        stats = []
-
-        if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
-        if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
-        if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
-        if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
-        if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
-        if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
-        if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+        operations = {
+            "var": lambda x: np.log10(np.absolute(np.var(x))),
+            "min": lambda x: np.log10(np.absolute(min(x))),
+            "mean": lambda x: np.log10(np.absolute(np.mean(x))),
+            "skew": lambda x: np.log10(np.absolute(skew(x))),
+            "kurtosis": lambda x: np.log10(
+                np.absolute(kurtosis(x, fisher=False, bias=False))),
+            "abs": lambda x: np.log10(np.sum(np.absolute(x))),
+            "square": lambda x: np.log10(np.sum(np.square(x))),
+        }
+
+        # the statistics label the columns, so keep their order
+        stats = [operations[name](array) for name in stats_names]
 
         return np.asarray(stats)
 
@@ -367,7 +364,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +412,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0 * n_stats:1 * n_stats] = self.get_summary_statistics(QcDiff)
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +420,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, 1 * n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +428,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +436,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +444,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        X.iloc[0, 4 * n_stats:5 * n_stats] = self.get_summary_statistics(dQdVcDiff)
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,9 +452,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        X.iloc[0, 5 * n_stats:6 * n_stats] = self.get_summary_statistics(dQdVdDiff)
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        X.iloc[0, 6 * n_stats:], names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
 
-- 
2.43.0


From 3a6e1871724f6cfee68099d3dbc0deaaf6181778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 24/70] fix: DeltaQFastCharge uses its hyperparameters and
 marks missing capacity differences

---
 beep/features/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index ae08948..1d22b3f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -534,11 +534,9 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_final = self.hyperparameters[
                       "final_pred_cycle"] - 1  # python indexing
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
+        i_init = self.hyperparameters["init_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
@@ -577,7 +575,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == i_init]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
@@ -591,7 +589,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
@@ -648,7 +646,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # For nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From 28f634cab6cab9b4b7617f628118a31c83d3cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:38 +0000
Subject: [PATCH 25/70] fix: diagnostic thresholds are taken from the chosen
 cycle type and metric

---
 beep/features/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 1d22b3f..687c94a 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -822,6 +822,9 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        # The thresholds are those of one cycle type and metric
+        df = df[(df["cycle_type"] == cycle_type) & (df["metric"] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
@@ -836,7 +839,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
@@ -877,13 +880,10 @@ class DiagnosticProperties(BEEPFeaturizer):
 
         x_to_threshold = []
         for indx, x_linspace in enumerate(x_linspaces):
-            print(f_axis[indx])
-            print(x_linspace)
-
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if not all(x > 0 for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 10ac3edc4138cc8a941516e5858fe7854ea6f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:13 +0000
Subject: [PATCH 26/70] fix: diagnostic times that mix whole and fractional
 seconds

---
 beep/features/featurizer_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..a015802 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -530,7 +530,7 @@ def get_fractional_quantity_remaining_nx(
     summary_diag_cycle_type.loc[:, 'diagnostic_interval'] = parameter_row['diagnostic_interval'].values[0]
 
     # Calculate the epoch time stamp at each of the measurements for later comparison
-    date_time_objs = pd.to_datetime(summary_diag_cycle_type["date_time_iso"])
+    date_time_objs = pd.to_datetime(summary_diag_cycle_type["date_time_iso"], format="mixed")
     date_time_float = [
         calendar.timegm(t.timetuple()) if t is not pd.NaT else float("nan")
         for t in date_time_objs
-- 
2.43.0


From 4f78da03f9774a75f51c0a814860bdaf9996b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:28 +0000
Subject: [PATCH 27/70] fix: creating diagnostic features leaves the diagnostic
 data of the run unchanged

---
 beep/features/core.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 687c94a..c441003 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -40,26 +42,28 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
             return val, msg
 
     def create_features(self):
+        # Work on a view of the run, its own diagnostic data stays complete
+        datapath = copy.copy(self.datapath)
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +74,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -350,19 +354,22 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         Returns:
             X (pd.DataFrame): Dataframe containing the feature
         """
+        # Work on a view of the run, its own diagnostic data stays complete
+        datapath = copy.copy(self.datapath)
+
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         n_stats = len(self.hyperparameters["statistics"])
         X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
@@ -372,13 +379,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From 0c78c9cf911adc330951532b502e9a79bc087ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:49 +0000
Subject: [PATCH 28/70] fix: HPPC voltage differences find the steps of the
 chosen diagnostic

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index a015802..4ff89ee 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From c2b277b413c4af242dd9161a6573a4423a3f48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:49 +0000
Subject: [PATCH 29/70] fix: HPPC diffusion features use the parameters path
 hyperparameter

---
 beep/features/core.py               | 4 +++-
 beep/features/featurizer_helpers.py | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index c441003..48e2a4f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -57,7 +57,9 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath,
+            self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 4ff89ee..4c0fb1e 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -392,7 +392,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -401,13 +401,14 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         processed_cycler_run (beep.structure.ProcessedCyclerRun)
         diag_pos (int): diagnostic cycle occurence for a specific <diagnostic_cycle_type>. e.g.
         if rpt_0.2C, occurs at cycle_index = [2, 37, 142...], <diag_pos>=0 would correspond to cycle_index 2.
+        parameters_path (str): path to the parameters file for this run
 
     Returns:
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path=parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From 69d194be124fe07314c494bda774c98e032a1320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 30/70] fix: BioLogic files keep their cycle_index column when
 it is the last one

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 91baba0..4310e8c 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -83,7 +83,7 @@ class BiologicDatapath(BEEPDatapath):
                 i += 1
                 if i == header_line:
                     header = str(line.decode(encoding=encoding))
-                    columns = header.split(sep)
+                    columns = header.rstrip("\r\n").split(sep)
                     for c in columns:
                         raw[c] = list()
                 if i >= data_starts_line:
-- 
2.43.0


From edaaec2f401f7248af274d9d6f669c16ad7a4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 31/70] fix: BioLogic runs can be saved to json

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 4310e8c..1ce3f53 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -199,7 +199,7 @@ class BiologicDatapath(BEEPDatapath):
                 if flag_protocol_start:
                     if line == "":
                         flag_protocol = True
-                        protocol = hashlib.md5(protocol_text.encode()).digest()
+                        protocol = hashlib.md5(protocol_text.encode()).hexdigest()
                         metadata["protocol"] = protocol
                     else:
                         protocol_text += line + "\n"
-- 
2.43.0


From b8b8d3bee0e41e0cd134b0a6ad19e34ae09addc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 32/70] fix: the last record of a Battery Archive file gets the
 start time of its own step

---
 beep/structure/battery_archive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..285bb3d 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -85,7 +85,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         start_times = df["test_time (s)"].loc[step_change_ix]
         arrays = [None] * len(step_change_ix)
 
-        final_ix = [df.shape[0] - 1]
+        final_ix = [df.shape[0]]
         step_change_ix_buffered = np.append(step_change_ix[1:], final_ix)
 
         for i, scix in enumerate(step_change_ix_buffered):
@@ -93,9 +93,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From e64f8cfc19f6e8cffae4864e30dad07e1059bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 33/70] fix: discharge energy of Novonix cycles without charge
 is referred to their energy

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From 86f62c1155bdc21e6b30354287ad496f660a9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 34/70] fix: an unfinished Maccor step that begins a cycle
 starts from zero capacity

---
 beep/structure/maccor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..ba7e7ac 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -239,6 +239,11 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                != data.loc[begin_step_ind, "cycle_index"]
+            ):
+                cycle_sum = 0.0
             quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
-- 
2.43.0


From c2721931d3698a8ca769f274af550ed5de190cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 35/70] fix: Indigo columns are named by the items of their own
 block

---
 beep/structure/indigo.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..0dade80 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -32,19 +32,18 @@ class IndigoDatapath(BEEPDatapath):
         #        if using python 3.7, 3.8 or 3.9
         hdf = h5py.File(path, "r")
         d0 = hdf.get('time_series_data')
-        d1 = np.array(d0.get('axis0'))
         d2 = np.array(d0.get('axis1'))
-        # d3 = np.array(d0.get('block0_items'))
+        d3 = np.array(d0.get('block0_items'))
         d4 = np.array(d0.get('block0_values'))
-        # d5 = np.array(d0.get('block1_items'))
+        d5 = np.array(d0.get('block1_items'))
         d6 = np.array(d0.get('block1_values'))
-        # d7 = np.array(d0.get('block2_items'))
+        d7 = np.array(d0.get('block2_items'))
         d8 = np.array(d0.get('block2_values'))
         d9 = np.concatenate((d4, d6, d8), axis=1)
         d10 = pd.DataFrame(d9)
         d11 = d10.set_axis(d2, axis="index")
         d1_string = []
-        for i in d1:
+        for i in np.concatenate((d3, d5, d7)):
             j = i.decode("utf-8")
             d1_string.append(j)
         data = d11.set_axis(d1_string, axis="columns")
-- 
2.43.0


From dbf69608ae3f84e22d5641f17fd0e417df588d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:01 +0000
Subject: [PATCH 36/70] fix: Indigo energies are converted from J to Wh

---
 beep/structure/indigo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 0dade80..7f3c73a 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -70,12 +70,12 @@ class IndigoDatapath(BEEPDatapath):
                 abs(data.cell_coulomb_count_c) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_capacity"] = 0
-        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 0, "charge_energy"] = 0
-        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
-- 
2.43.0


From a927b76e23f81905638109491eff8cb690123d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:11 +0000
Subject: [PATCH 37/70] fix: Arbin and Battery Archive timestamps are not
 rounded to minutes

---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 beep/structure/battery_archive.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 285bb3d..5bd77f2 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -50,7 +50,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         "charge_energy": "float64",
         "discharge_energy": "float64",
         "temperature": "float32",
-        "date_time": "float32",
+        "date_time": "float64",
     }
 
     FILE_PATTERN = ".*timeseries\\.csv"
-- 
2.43.0


From 9487472bc6966f9f27788f40acb98c2a59dcb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:22 +0000
Subject: [PATCH 38/70] fix: EIS files of a Maccor run can be loaded

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index ba7e7ac..16cdafd 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From ac043406492e5179087b4fe23a98a9f6db5808e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 39/70] fix: the barcode of a BioLogic run without comment is
 empty

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 1ce3f53..eab016d 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -188,7 +188,7 @@ class BiologicDatapath(BEEPDatapath):
                     flag_cell_id = True
 
                 if "Comments" in line.strip().split(" : ")[0]:
-                    barcode = line.strip().split(" : ")[-1]
+                    barcode = line.split(" : ", 1)[-1].strip()
                     metadata["barcode"] = barcode
                     flag_barcode = True
 
-- 
2.43.0


From b3e87d11f5ed6123393af4e9f129a9c018543039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 40/70] fix: training features are dropped by the feature
 threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From 34881e23ad9746aa8715a369af15b8bcf37597c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 41/70] fix: predict lists exactly the samples it dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index b965512..882b5d8 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From dfe0be0bb442bff021d4e9d69540dd3f20dc3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 42/70] fix: features unknown to the model do not count for the
 prediction threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 882b5d8..664a318 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From 34fd3e30b7ed02870806b0c2d01861530d324a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 43/70] fix: predicting leaves the feature matrix unchanged

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index 664a318..c4d3791 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,6 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
+        X = X.copy()
         X.columns = cols_stripped
         return X
 
-- 
2.43.0


From c84fb65b2cab099755c3a2899799ba075391dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 44/70] fix: the default number of iterations is accepted by
 sklearn

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index c4d3791..73d6a88 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -100,7 +100,7 @@ class BEEPLinearModelExperiment(MSONable):
             drop_nan_training_targets: bool = False,
             impute_strategy: str = "median",
             kfold: int = 5,
-            max_iter: int = 1e6,
+            max_iter: int = 1000000,
             tol: float = 1e-4,
             # only relevant for elasticnet
             l1_ratio: Union[Tuple[float], List[float]] = (
-- 
2.43.0


From d30d9e39fb9b8c0b923ed30438b05fc98db5e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 45/70] fix: a saved model keeps the scaling it was trained
 with

---
 beep/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 73d6a88..319f37a 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -512,7 +512,10 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
-
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
         }
 
     @classmethod
@@ -559,6 +562,10 @@ class BEEPLinearModelExperiment(MSONable):
         model.coef_ = np.asarray(model_params["coef_"])
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
+        # models saved without their scaling use that of the whole training set
+        if "scaler_sklearn" in d:
+            o.scaler.mean_ = np.asarray(d["scaler_sklearn"]["mean_"])
+            o.scaler.scale_ = np.asarray(d["scaler_sklearn"]["scale_"])
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
         return o
 
-- 
2.43.0


From 4500b05758fdced287fcc6b6d24d8b2ec1f270ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 46/70] fix: a saved data splitter keeps its imputation,
 exclusion columns and split threshold

---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..f7bb3c2 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -335,6 +337,9 @@ class BEEPDataSplitter(MSONable):
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "impute_strategy": self.impute_strategy,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -352,7 +357,10 @@ class BEEPDataSplitter(MSONable):
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            impute_strategy=d.get("impute_strategy", "median"),
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5),
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From 58957e0ae16add0e3d5fd808999fed9b4872e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 47/70] fix: beep train passes its nan threshold and l1 ratio
 options to the model

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..99d7528 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1258,15 +1258,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From 773ed3c42baf79e86d8e06a51443677724f11b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 48/70] fix: beep train uses the alpha range when it is given

---
 beep/cmd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 99d7528..f6394be 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1074,7 +1074,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1249,8 +1249,10 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
-        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
+    if all(a is not None for a in alpha_params):
+        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas).tolist()
+    elif any(a is not None for a in alpha_params):
+        raise click.UsageError("--alpha-lower, --alpha-upper and --n-alphas must be specified together.")
     else:
         alphas = None
 
-- 
2.43.0


From dee2ef946f94be52f945a91dea6871cc906f077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:33 +0000
Subject: [PATCH 49/70] fix: infinite features count as missing in prediction
 as in training

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 319f37a..06e7a77 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -351,7 +351,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         # Assemble the correct data while retaining all features
         X_old = copy.deepcopy(X)
-        X = X[self.feature_labels].dropna(
+        X = X[self.feature_labels].replace([np.inf, -np.inf], np.nan).dropna(
             axis=0,
             thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
-- 
2.43.0


From 85353ab6865ece87c3be52a190f0565b966b68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 50/70] fix: beep featurize reports an unreadable file and goes
 on with the others

---
 beep/cmd.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index f6394be..e300dc9 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -844,11 +844,25 @@ def featurize(
         op_result = {
             "walltime": None,
             "processed_md5_chksum": md5sum(file),
-            "featurizers": []
+            "featurizers": [],
+            "traceback": None
         }
 
         logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
+        try:
+            structured_datapath = auto_load_processed(file)
+        except Exception:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
+
+            op_result["walltime"] = time.time() - t0_file
+            status_json["files"][file] = op_result
+            i += 1
+            continue
         logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
 
         for fclass, f_hyperparams in fclass_tuples:
-- 
2.43.0


From 0c53256118e97165effa77be4c7227452ec52906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 51/70] fix: beep featurize writes the auto-named feature
 matrix to the output directory

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e300dc9..c3d9a22 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -943,7 +943,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 038fee98b0db1a5bdb62915d10a21908304dcd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 52/70] fix: interrupted commands and unknown featurizers exit
 with an error status

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c3d9a22..4a8dd84 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -913,7 +913,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1336,7 +1336,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1499,7 +1499,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 65514252edb5c0018e9b2de5b39c2a661ae1dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 53/70] fix: beep predict applies a sample threshold of zero

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 4a8dd84..d4a9c8e 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1483,7 +1483,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From c89a8999821c2e7ba6bc31893c2b06f2bfead782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 54/70] fix: beep train reports the training errors when all
 data are used

---
 beep/cmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index d4a9c8e..147d21c 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1334,6 +1334,8 @@ def train(
             logger.info("Beginning training on all available data")
             model, training_errors = blme.train()
             test_errors = None
+            status_json["model_results"]["training_error"] = training_errors
+            status_json["model_results"]["optimal_hyperparameters"] = blme.optimal_hyperparameters
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
         ctx.exit(1)
-- 
2.43.0


From 3f1af2d244e0b477067ce72001fddce7aa4c9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 55/70] fix: beep protocol fails with halt-on-error

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 147d21c..2ad82bb 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1613,6 +1613,9 @@ def protocol(
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
-- 
2.43.0


From 42b2a6254a107a14539b4dcdf73f7a3020870f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 56/70] fix: beep structure prefers local files to S3 objects
 of the same path

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2ad82bb..26ff17d 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -449,7 +449,7 @@ def structure(
         for maybe_glob in files:
             # add direct matches
             if "*" not in maybe_glob:
-                if maybe_glob in s3_keys:
+                if maybe_glob in s3_keys and not os.path.exists(maybe_glob):
                     s3_keys_matched.append(maybe_glob)
                 else:
                     local_files.append(maybe_glob)
-- 
2.43.0


From 43e18cc9c1098a8ebdebbb65299aaf0fc5d052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 57/70] fix: the Do step of a loop is found anywhere before it

---
 beep/protocol/maccor_to_arbin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..57d4226 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -124,14 +124,15 @@ class ProcedureToSchedule:
             step_name_list.append(str(indx + 1) + "-" + str(step["StepNote"]))
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
-                i = 1
-                while (indx - i) > 1:
-                    if self.procedure_dict_steps[abs(indx - i)][
+                for do_index in range(indx - 1, -1, -1):
+                    if self.procedure_dict_steps[do_index][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-                        do_index = abs(indx - i)
                         break
-                    i = i + 1
+                else:
+                    raise ValueError(
+                        "No Do step for {} at step {}".format(step["StepType"], indx + 1)
+                    )
                 step_flow_ctrl.update({indx: step_name_list[do_index + 1]})
         return step_name_list, step_flow_ctrl
 
-- 
2.43.0


From c25400a5b9cec86a13cf7a5f2ad600fb27bdd48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 58/70] fix: converting a Loop step leaves the Maccor procedure
 as it is

---
 beep/protocol/maccor_to_arbin.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 57d4226..c7df44b 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -199,6 +199,7 @@ class ProcedureToSchedule:
 
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
+        ends = None if step_abs["Ends"] is None else step_abs["Ends"]["EndEntry"]
 
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
@@ -305,10 +306,7 @@ class ProcedureToSchedule:
                         ("Value", step_abs["Ends"]["EndEntry"]["Value"]),
                     ]
                 )
-                step_abs["Ends"]["EndEntry"] = [
-                    loop_addendum,
-                    step_abs["Ends"]["EndEntry"],
-                ]
+                ends = [loop_addendum, ends]
 
             elif "Do" in step_abs["StepType"]:
                 loop_counter = int(re.search(r"\d+", step_abs["StepType"]).group())
@@ -325,10 +323,10 @@ class ProcedureToSchedule:
         step_type = step_abs["StepType"]
 
         # Ends
-        if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+        if ends is not None:
+            if isinstance(ends, OrderedDict):
                 blank_step["m_uLimitNum"] = 1
-                end = step_abs["Ends"]["EndEntry"]
+                end = ends
                 end_index = 0
                 limit_key = "Limit{}".format(str(end_index))
                 blank_step[limit_key] = OrderedDict(
@@ -341,9 +339,9 @@ class ProcedureToSchedule:
                         step_flow_ctrl,
                     )
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
-                blank_step["m_uLimitNum"] = len(step_abs["Ends"]["EndEntry"])
-                for end_index, end in enumerate(step_abs["Ends"]["EndEntry"]):
+            elif isinstance(ends, list):
+                blank_step["m_uLimitNum"] = len(ends)
+                for end_index, end in enumerate(ends):
                     limit_key = "Limit{}".format(str(end_index))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_end_to_limit(
@@ -355,7 +353,7 @@ class ProcedureToSchedule:
                             step_flow_ctrl,
                         )
                     )
-        elif step_abs["Ends"] is None:
+        else:
             blank_step["m_uLimitNum"] = 1
             end_index = 0
             limit_key = "Limit{}".format(str(end_index))
@@ -367,19 +365,19 @@ class ProcedureToSchedule:
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
+                limit_start = len(ends)
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(ends, list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
+                    limit_start = len(ends)
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From c602339c6595188b968b6dc54fe841bceded4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 59/70] fix: a single end condition given as plain dict becomes
 an Arbin limit

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index c7df44b..ec28d93 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -324,7 +324,7 @@ class ProcedureToSchedule:
 
         # Ends
         if ends is not None:
-            if isinstance(ends, OrderedDict):
+            if isinstance(ends, dict):
                 blank_step["m_uLimitNum"] = 1
                 end = ends
                 end_index = 0
-- 
2.43.0


From a4fa9a819c3ecf4c9a54d4089f836e463906196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 60/70] fix: Maccor reports follow the limits of the Arbin step
 whatever its end conditions

---
 beep/protocol/maccor_to_arbin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index ec28d93..9ce6cce 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -361,23 +361,22 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(ends)
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(ends, list):
+            else:
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(ends)
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From e246db88ba5148940db7447e19e9ad3ff4286c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 61/70] fix: the voltage limit of a C-rate discharge reaches
 the Arbin step

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 9ce6cce..dc25d55 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -234,6 +234,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From 404af9e3426eaa115254200810f00ff9a0766c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 62/70] fix: a step that is neither charge nor discharge is
 refused instead of converted without control value

---
 beep/protocol/maccor_to_arbin.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index dc25d55..f1227fd 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -201,6 +201,14 @@ class ProcedureToSchedule:
         blank_step["m_szCurrentRange"] = current_range
         ends = None if step_abs["Ends"] is None else step_abs["Ends"]["EndEntry"]
 
+        if step_abs["StepMode"] is not None and step_abs["StepType"] not in [
+            "Charge",
+            "Dischrge",
+        ]:
+            raise ValueError(
+                "Unable to convert step type {}".format(step_abs["StepType"])
+            )
+
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
             if step_abs["Limits"] is not None:
-- 
2.43.0


From b38eb8f33f86914d761fb8bc87e9f81805cf5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 63/70] fix: step times of a day and more and times written
 without hours and minutes are converted

---
 beep/protocol/maccor_to_arbin.py | 46 ++++++++++++--------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index f1227fd..c0a2616 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,6 @@
 
 import os
 import re
-from datetime import datetime
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -26,6 +25,21 @@ TEST_DIR = os.path.dirname(__file__)
 TEST_FILE_DIR = os.path.join(TEST_DIR, "test_files")
 
 
+def time_to_seconds(value):
+    """
+    Converts a maccor time to seconds.
+
+    Args:
+        value (str): time as hours:minutes:seconds, any part may be empty
+
+    Returns:
+        float: number of seconds
+
+    """
+    hours, minutes, seconds = [float(part) if part else 0.0 for part in value.split(":")]
+    return hours * 3600 + minutes * 60 + seconds
+
+
 class ProcedureToSchedule:
     """
     This class is a set of methods to convert from a maccor procedure file to
@@ -491,20 +505,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(time_to_seconds(end["Value"]))
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -555,19 +556,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(time_to_seconds(report["Value"]))
 
         return limit
-- 
2.43.0


From 5e78dcc431e433fd130e7c1d74c09b4f0b38e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 64/70] fix: both comparisons turn around for the negative
 current of a discharge

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index c0a2616..f3061e6 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -475,7 +475,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -494,7 +494,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From 79db14e51f3d4982bb916b568f10568a695725c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 65/70] fix: unknown report types are refused instead of
 converted to an empty limit

---
 beep/protocol/maccor_to_arbin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index f3061e6..fbc94e7 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -557,5 +557,9 @@ class ProcedureToSchedule:
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
             limit["Equation0_szRight"] = str(time_to_seconds(report["Value"]))
+        else:
+            raise ValueError(
+                "Unable to set report for type {}".format(report["ReportType"])
+            )
 
         return limit
-- 
2.43.0


From 66816a0e1fda44cbe3b2487521a09ce612d47dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:43 +0000
Subject: [PATCH 66/70] fix: driving waveform parameters do not leak into the
 default waveform configuration

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 0a4a0d2..487ec7b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1328,7 +1328,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = MACCOR_WAVEFORM_CONFIG.copy()
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 2655eac9010bc34059add74eea7f3b00ff8f8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:43 +0000
Subject: [PATCH 67/70] fix: charging waveforms refuse soc mesh points that are
 not increasing

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From e14b214160c08d06128a5b27cd549ce124d092d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 68/70] fix: jumps to the start of a BioLogic loop enter the
 Maccor loop at its Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..028cdf0 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -744,7 +744,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 480e9238767058e52cf51a5bc30827429756be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 69/70] fix: limits of a BioLogic sequence that do not jump are
 not checked for illegal jumps

---
 beep/protocol/biologic_mb_to_maccor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 028cdf0..b2e361f 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -653,6 +653,8 @@ class BiologicMbToMaccorProcedure:
             seq_belongs_to_loop = seq_num in containing_loop_range_by_seq_num
 
             for lim in range(1, num_limits + 1):
+                if seq["lim{}_action".format(lim)] != "Goto sequence":
+                    continue
                 goto = int(seq["lim{}_seq".format(lim)])
                 if goto < last_loop_end:
                     raise Exception(
-- 
2.43.0


From 62734f49a7413602d5272df5689256745c2a37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 70/70] fix: fitting a synthetic profile with error type dQdV
 uses the dQdV error, not the dVdQ one

---
 beep/features/intracell_analysis_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis_v2.py b/beep/features/intracell_analysis_v2.py
index 4c19e3a..58fa5d2 100644
--- a/beep/features/intracell_analysis_v2.py
+++ b/beep/features/intracell_analysis_v2.py
@@ -798,7 +798,7 @@ class IntracellAnalysisV2:
             elif error_type == 'dVdQ':
                 return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
             elif error_type == 'dQdV':
-                return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
+                return self._get_error_from_degradation_matching_dqdv(x, *params)[0]
             else:
                 return self._get_error_from_degradation_matching_v_q(x, *params)[0]
         except RuntimeError:
-- 
2.43.0

