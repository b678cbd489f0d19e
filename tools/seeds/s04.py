A = "beep/protocol/arbin.py"
B = "beep/protocol/biologic.py"
SEEDS = [
 dict(id="c11-strip-round-number", property="C11",
      edits=[(A, """"CC1", "m_szCtrlValue", step_value="{0:.3f}".format(CC1).rstrip("0")""", """"CC1", "m_szCtrlValue", step_value="{0:.3f}".format(CC1).rstrip("0.")""")],
      needs="a first charge current that is a multiple of ten ampere", breaks="10 A is written as 1 A",
      demo='''
import os
from beep.protocol import SCHEDULE_TEMPLATE_DIR
from beep.protocol.arbin import Schedule
p = os.path.join(SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu")
for c in (4.4, 10.0, 0.5):
    s = Schedule.from_fast_charge(c, 0.5, 2.2, p)
    k = next(s.get_labelled_steps("CC1"))
    assert float(s["Schedule"][k]["m_szCtrlValue"]) == c, s["Schedule"][k]["m_szCtrlValue"]
'''),
 dict(id="c11-limits-stop-after-foreign", property="C11",
      edits=[(A, """                        warnings.warn(
                            "Additional step limit at {}.{}".format(step, limit)
                        )
""", """                        warnings.warn(
                            "Additional step limit at {}.{}".format(step, limit)
                        )
                        break
""")],
      needs="a labelled step whose first stop limit is on another variable", breaks="the requested limit after it is silently not set",
      demo='''
import warnings
warnings.simplefilter("ignore")
from beep.protocol.arbin import Schedule
lim = lambda v: {"m_bStepLimit": "1", "Equation0_szLeft": v, "Equation0_szCompareSign": "<", "Equation0_szRight": "1"}
s = Schedule({"Schedule": {"Step0": {"m_szLabel": "CC1", "Limit0": lim("PV_CHAN_Voltage"), "Limit1": lim("PV_CHAN_Charge_Capacity")}}})
s.set_labelled_limits("CC1", "PV_CHAN_Charge_Capacity", ">", "0.8")
assert s["Schedule"]["Step0"]["Limit0"]["Equation0_szRight"] == "1"
assert s["Schedule"]["Step0"]["Limit1"]["Equation0_szRight"] == "0.8", s
'''),
 dict(id="c11-formation-second-voltage", property="C11",
      edits=[(B, """        value = float(round(params["initial_charge_voltage_2"], 3))
        self.set("Technique.1.Step.5.lim1_value", value)""", """        value = float(round(max(params["initial_charge_voltage_1"], params["initial_charge_voltage_2"]), 3))
        self.set("Technique.1.Step.5.lim1_value", value)""")],
      needs="a second charge voltage below the first", breaks="the second charge step runs to the first voltage",
      demo='''
import os, pandas as pd
from beep.protocol import BIOLOGIC_TEMPLATE_DIR
from beep.protocol.biologic import Settings
q = dict(initial_charge_current_1=0.1, initial_charge_voltage_1=3.9, initial_charge_cvhold_1=60, initial_charge_rest_1=30,
 initial_charge_current_2=0.2, initial_charge_voltage_2=3.6, initial_charge_cvhold_2=10, initial_charge_rest_2=20,
 initial_discharge_current_1=0.2, initial_discharge_voltage_1=2.7, mid_charge_current_1=1, mid_charge_voltage_1=4, mid_discharge_current_1=1,
 mid_discharge_voltage_1=2.8, mid_cycle_reps=4, final_charge_current_1=1, final_charge_voltage_1=4.1, final_discharge_current_1=0.5,
 final_discharge_voltage_1=2.75, final_discharge_cvhold_1=45, capacity_nominal=0.2)
s = Settings.from_file(os.path.join(BIOLOGIC_TEMPLATE_DIR, "formationV1.mps"))
s.formation_protocol_bcs(pd.Series(q))
st = s["Technique"]["1"]["Step"]
assert float(st["2"]["lim1_value"]) == float(st["3"]["ctrl1_val"]) == 3.9
assert float(st["5"]["lim1_value"]) == float(st["6"]["ctrl1_val"]) == 3.6, st["5"]["lim1_value"]
'''),
]
