P = "beep/protocol/maccor_to_biologic_mb.py"
CONV_PRE = '''
import os, copy
from collections import OrderedDict
import xmltodict
from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
D = os.environ["DEMO_DIR"]
def end(kind, op, val, goto):
    return OrderedDict([("EndType", kind), ("SpecialType", None), ("Oper", op), ("Step", "%03d" % goto), ("Value", val)])
def step(stype, mode=None, value=None, limits=None, ends=None, rep="00:00:10"):
    return OrderedDict([("StepType", stype), ("StepMode", mode), ("StepValue", value), ("Limits", limits),
        ("Ends", {"EndEntry": ends} if ends else None), ("Reports", {"ReportEntry": {"ReportType": "StepTime", "Value": rep}} if rep else None),
        ("Range", "A"), ("Option1", "N"), ("Option2", "N"), ("Option3", "N"), ("StepNote", None)])
def convert(conv, steps):
    with open(D + "/p.000", "w") as f:
        f.write(xmltodict.unparse({"MaccorTestProcedure": {"ProcSteps": {"TestStep": steps + [step("End", rep=None)]}}}, pretty=True))
    mps, rules = conv.convert(D + "/p.000", D, "out")
    techs = []
    for b in open(mps, "rb").read().decode("ISO-8859-1").split("\\r\\nTechnique : ")[1:]:
        f = {}
        for l in b.split("\\r\\n")[2:]:
            if l.strip():
                f[l[:20].strip()] = [l[i:i + 20].strip() for i in range(20, len(l), 20)]
        techs.append(f)
    return techs, rules
'''
SEEDS = [
 dict(id="c05-amps-boundary", property="C05",
      edits=[(P, """            return "{:.3f}".format(num * 1e6), "\\N{Micro Sign}A"
        elif num < 1 or decimal_sig_figs > 3:
            return "{:.3f}".format(num * 1e3), "mA\"""", """            return "{:.3f}".format(num * 1e6), "\\N{Micro Sign}A"
        elif num < 1 or decimal_sig_figs > 3 and num < 1e3:
            return "{:.3f}".format(num * 1e3), "mA\"""")],
      needs="a current of 1000 A or more with more than three decimals", breaks="the written current loses its fourth to sixth decimal",
      demo=CONV_PRE + '''
c = MaccorToBiologicMb()
v, u = c._convert_amps("1200.0004")
assert abs(float(v) * {"A": 1, "mA": 1e-3}[u] - 1200.0004) < 1e-6, (v, u)
'''),
 dict(id="c05-time-minute-part", property="C05",
      edits=[(P, "secs = 0.0 if sec_str == \"\" else float(sec_str)", "secs = 0.0 if sec_str in (\"\", \".\") else float(sec_str.split(\".\")[0] or 0) if len(sec_str) > 5 else float(sec_str)")],
      needs="seconds with three decimals, e.g. 01:00:10.250", breaks="the milliseconds of a step time are dropped",
      demo=CONV_PRE + '''
c = MaccorToBiologicMb()
v, u = c._convert_time("00:01:10.250")
assert abs(float(v) * {"h": 3600, "mn": 60, "s": 1, "ms": 1e-3}[u] - 70.25) < 1e-3, (v, u)
'''),
 dict(id="c06-ramp-crossing-direction", property="C06",
      edits=[(P, """            oper = ""
            if step_type == "Charge":
                oper = ">="
""", """            oper = ""
            if step_type == "Charge" or step_mode == "Voltage":
                oper = ">="
""")],
      needs="a discharge step in voltage mode with a current limit", breaks="the first sequence waits for the current to rise above the limit instead of falling to it",
      demo=CONV_PRE + '''
t, _ = convert(MaccorToBiologicMb(), [step("Dischrge", "Voltage", "3.0", {"Current": "1.5"}, end("StepTime", "=", "01:00:00", 2))])
f = t[0]
assert (f["lim1_type"][0], f["lim1_comp"][0]) == ("|I|", "<"), f
'''),
 dict(id="c06-hold-keeps-direction", property="C06",
      edits=[(P, """                new_seq["charge/discharge"] = "Charge" if step_type == "Charge" else "Discharge"

            else:
                raise""", """                new_seq["charge/discharge"] = "Discharge" if step_type == "Dischrge" and len(step_parts) == 1 else "Charge"

            else:
                raise""")],
      needs="a discharge step with a voltage limit (split into ramp and hold)", breaks="the holding sequence of a discharge step is marked as charge",
      demo=CONV_PRE + '''
t, _ = convert(MaccorToBiologicMb(), [step("Dischrge", "Current", "1.0", {"Voltage": "2.7"}, end("Current", "<=", "0.05", 2))])
assert t[0]["charge/discharge"] == ["Discharge", "Discharge"], t[0]
'''),
 dict(id="c07-goto-split-step", property="C07",
      edits=[(P, "goto_seq = seq_nums_by_step_num[goto_step_num][0]", "goto_seq = seq_nums_by_step_num[goto_step_num][-1]")],
      needs="a jump to a step that was split into ramp and hold", breaks="the jump enters at the hold sequence and skips the ramp",
      demo=CONV_PRE + '''
t, _ = convert(MaccorToBiologicMb(), [
    step("Rest", ends=[end("StepTime", "=", "00:10:00", 2), end("Voltage", "<=", "3.0", 3)]),
    step("Rest", ends=end("StepTime", "=", "00:10:00", 3)),
    step("Charge", "Current", "1.0", {"Voltage": "4.2"}, end("Current", "<=", "0.05", 4))])
assert t[0]["lim2_seq"][0] == "2", t[0]
'''),
 dict(id="c07-second-tech-offset", property="C07",
      edits=[(P, """                # book keep the loop
                prev_loop_open_step_num = -1
                goto_lowerbound = step_num + 1
""", """                # book keep the loop
                prev_loop_open_step_num = -1
                goto_lowerbound = i + 2
""")],
      needs="a technique that does not start at the first step, containing a loop and a later jump back over it",
      breaks="a jump back over the end of a loop is converted instead of rejected",
      demo=CONV_PRE + '''
R = lambda n, g=None: step("Rest", ends=[end("StepTime", "=", "00:10:00", n + 1)] + ([end("Voltage", "<=", "3.0", g)] if g else []))
L = lambda k, n: step("Loop %d" % k, ends=end("Loop Cnt", "=", "3", n + 1), rep=None)
Do = lambda k: step("Do %d" % k, rep=None)
s = [Do(1), Do(2), R(3), L(2, 4), L(1, 5), R(6), Do(1), R(8), L(1, 9), R(10, 6)]
try:
    convert(MaccorToBiologicMb(), s)
except Exception:
    pass
else:
    raise SystemExit("jump back over a loop was converted")
s[-1] = R(10)
assert len(convert(MaccorToBiologicMb(), s)[0]) == 3
'''),
 dict(id="c08-tech-start-pending", property="C08",
      edits=[(P, """            cycle_advances_on_tech_start = adv_cycle_count
            adv_cycle_count = 0
""", """            cycle_advances_on_tech_start = 0 if tp.tech_does_loop else adv_cycle_count
            adv_cycle_count = 0
""")],
      needs="AdvCycle as the last step before a nested loop", breaks="the advance between two techniques is lost",
      demo=CONV_PRE + '''
import json
R = lambda n: step("Rest", ends=end("StepTime", "=", "00:10:00", n + 1))
L = lambda k, n: step("Loop %d" % k, ends=end("Loop Cnt", "=", "3", n + 1), rep=None)
Do = lambda k: step("Do %d" % k, rep=None)
A = step("AdvCycle", rep=None)
_, rules = convert(MaccorToBiologicMb(), [R(1), A, Do(1), R(4), Do(2), R(6), R(7), L(2, 8), L(1, 9)])
assert json.load(open(rules[1]))["adv_cycle_on_start"] == 1
'''),
 dict(id="c08-split-source", property="C08",
      edits=[(P, "s = tp.seq_nums_by_step_num[s_][-1]\n", "s = tp.seq_nums_by_step_num[s_][-1 if s_ < t_ else 0]\n")],
      needs="a loop ending with a split (limited) step, advancing the cycle", breaks="repetitions of the loop do not advance the cycle",
      demo=CONV_PRE + '''
import json
R = lambda n: step("Rest", ends=end("StepTime", "=", "00:10:00", n + 1))
S = lambda n: step("Charge", "Current", "1.0", {"Voltage": "4.2"}, end("Current", "<=", "0.05", n + 1))
L = lambda k, n: step("Loop %d" % k, ends=end("Loop Cnt", "=", "3", n + 1), rep=None)
_, rules = convert(MaccorToBiologicMb(), [step("Do 1", rep=None), R(2), S(3), step("AdvCycle", rep=None), L(1, 5)])
t = {(x["source"], x["target"]): x["adv_cycle_count"] for x in json.load(open(rules[0]))["adv_cycle_seq_transitions"]}
assert t == {(2, 0): 1}, t
'''),
 dict(id="c09-filter-on-first", property="C09",
      edits=[(P, """                filtered_end_entries = filtered_end_entries if len(filtered_end_entries) > 0 else None
""", """                filtered_end_entries = filtered_end_entries if len(filtered_end_entries) > 1 else None
""")],
      needs="a step of which all but one end condition is filtered out", breaks="the one remaining end condition is dropped and the step never ends",
      demo=CONV_PRE + '''
c = MaccorToBiologicMb()
c.min_voltage_v = 2.5
t, _ = convert(c, [step("Rest", ends=[end("Voltage", "<=", "2.4", 2), end("StepTime", "=", "00:10:00", 2)])])
assert t[0]["lim_nb"] == ["1"] and t[0]["lim1_type"] == ["Time"], t[0]
'''),
 dict(id="c09-min-current-uses-max", property="C09",
      edits=[(P, """        def pred(end_entry, _idx, _step_num):
            if self.min_current_a is None:
                return True
""", """        def pred(end_entry, _idx, _step_num):
            if not self.min_current_a:
                return True
""")],
      needs="a minimum current of exactly 0 and an end condition below it", breaks="a zero limit is treated as no limit",
      demo=CONV_PRE + '''
c = MaccorToBiologicMb()
c.min_current_a = 0
s = step("Rest", ends=[end("Current", "<=", "-1", 2), end("StepTime", "=", "00:10:00", 2)])
out = c._apply_step_mappings([s])[0]["Ends"]["EndEntry"]
assert [e["EndType"] for e in out] == ["StepTime"], out
'''),
]
