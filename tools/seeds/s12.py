A = "beep/protocol/maccor_to_arbin.py"
P = """
import os, tempfile
from collections import OrderedDict as O
from beep.protocol.maccor_to_arbin import ProcedureToSchedule
def step(t, mode=None, value=None, limits=None, ends=None, reports=None):
    return O(StepType=t, StepMode=mode, StepValue=value, Limits=limits, Ends=ends and O(EndEntry=ends), Reports=reports and O(ReportEntry=reports), StepNote=None)
def end(k, op, to, v):
    return O(EndType=k, SpecialType=None, Oper=op, Step=to, Value=v)
L = ["%d-None" % (i + 1) for i in range(12)]
def conv(s, i=3, flow={}):
    return ProcedureToSchedule([]).compile_to_arbin(s, i, L, flow)
"""
SEEDS = [
 dict(id="c21-hold-discharge-sign", property="C21",
      edits=[(A, """                    blank_step["m_szCtrlValue"] = "-" + step_abs["Limits"]["Current"]
""", """                    blank_step["m_szCtrlValue"] = step_abs["Limits"]["Current"]
""")],
      needs="a constant voltage discharge with a current limit", breaks="the cell is charged instead of discharged",
      demo=P + """
a = conv(step("Dischrge", "Voltage", "2.7", {"Current": "0.3"}, [end("StepTime", "=", "005", "00:01:00")]))
assert float(a["m_szCtrlValue"]) == -0.3, a
"""),
 dict(id="c21-inner-counter-not-reset", property="C21",
      edits=[(A, """                blank_step["m_szCtrlValue"] = str(2 ** (loop_counter + 15))
""", """                blank_step["m_szCtrlValue"] = str(2 ** 15 * 2)
""")],
      needs="a second loop counter", breaks="the Do of loop 2 resets counter 1: loop 2 never repeats again and loop 1 never ends",
      demo=P + """
assert [conv(step("Do %d" % n))["m_szCtrlValue"] for n in (1, 2)] == ["65536", "131072"]
"""),
 dict(id="c21-old-steps-remain", property="C21",
      edits=[(A, """            if bool(re.match('Step[0-9]+', key)):
""", """            if bool(re.fullmatch('Step[0-9]{1,2}', key)):
""")],
      needs="a template with more than a hundred steps and a shorter procedure", breaks="steps of the template remain behind the converted ones",
      demo=P + """
d = tempfile.mkdtemp()
with open(d + "/t.sdu", "w", newline="") as f:
    f.write("[Schedule]\\r\\nm_uStepNum=12\\r\\n" + "".join("[Schedule_Step%d]\\r\\nm_szLabel=old\\r\\n" % i for i in range(103)))
ProcedureToSchedule([step("Rest", ends=[end("StepTime", "=", "002", "00:01:00")] * 2), step("End")]).create_sdu(d + "/t.sdu", d + "/o.sdu")
t = open(d + "/o.sdu").read()
assert t.count("m_szLabel=") == 2, t
"""),
 dict(id="c21-hold-cutoff-positive", property="C21",
      edits=[(A, """            and blank_step["m_szStepCtrlType"] == "Voltage(V)"
        ):
            limit["Equation0_szLeft"] = "PV_CHAN_Current"
            if step_type == "Charge":
""", """            and blank_step["m_szStepCtrlType"] == "Voltage(V)"
        ):
            limit["Equation0_szLeft"] = "PV_CHAN_Current"
            if step_type in ("Charge", "Dischrge"):
""")],
      needs="a constant voltage discharge without limit that ends at a current", breaks="the step ends at once: a discharge current is always below a positive threshold",
      demo=P + """
a = conv(step("Dischrge", "Voltage", "2.7", None, [end("Current", "<=", "005", "0.05")] * 2))
assert float(a["Limit0"]["Equation0_szRight"]) == -0.05 and a["Limit0"]["Equation0_szCompareSign"] == ">=", a
"""),
 dict(id="c21-safety-two-decimals", property="C21",
      edits=[(A, """                     "{:.6f}".format(global_v_range[0]) + "^" + "{:.6f}".format(global_v_range[1]))
""", """                     "{:.2f}0000".format(global_v_range[0]) + "^" + "{:.2f}0000".format(global_v_range[1]))
""")],
      needs="a voltage range given to the millivolt", breaks="the safety range of the schedule is not the requested one",
      demo=P + """
d = tempfile.mkdtemp()
with open(d + "/t.sdu", "w", newline="") as f:
    f.write("[Schedule]\\r\\nm_uStepNum=0\\r\\n")
ProcedureToSchedule([step("End")]).create_sdu(d + "/t.sdu", d + "/o.sdu", global_v_range=[2.755, 4.199])
t = open(d + "/o.sdu").read()
assert "2.755000^4.199000" in t, t
"""),
 dict(id="c21-report-ends-step", property="C21",
      edits=[(A, """        limit["m_bStepLimit"] = "0"
        limit["m_bLogDataLimit"] = "1"
        limit["m_szGotoStep"] = "Next Step"

        if report["ReportType"] == "Voltage":
""", """        limit["m_bLogDataLimit"] = "1"
        limit["m_szGotoStep"] = "Next Step"
        limit["m_bStepLimit"] = "1" if report["ReportType"] == "Current" else "0"

        if report["ReportType"] == "Voltage":
""")],
      needs="a report on current", breaks="the first change of current ends the step",
      demo=P + """
a = conv(step("Charge", "Current", "1", None, [end("StepTime", "=", "005", "00:01:00")] * 2, [O(ReportType="Current", Value="0.1")] * 2))
assert a["Limit2"]["m_bStepLimit"] == "0", a
"""),
]
