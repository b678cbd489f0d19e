W, M = "beep/utils/waveform.py", "beep/protocol/maccor.py"
P = """
import os, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
from beep.protocol import maccor as m
from beep.utils.waveform import RapidChargeWave, convert_velocity_to_power_waveform
D = tempfile.mkdtemp()
CFG = dict(m.MACCOR_WAVEFORM_CONFIG)
def lines(p):
    return [l.split("\\t") for l in open(p).read().splitlines()]
"""
SEEDS = [
 dict(id="c23-zero-current-charges", property="C23",
      edits=[(M, """        mask = df["current"] <= 0""", """        mask = df["current"] < 0""")],
      needs="a current waveform with a rest in a discharge", breaks="a rest is written as a charge with the charge limits",
      demo=P + """
CFG["control_mode"] = "I"
l = lines(m.generate_maccor_waveform_file(pd.DataFrame({"time": [0, 1, 2], "current": [-1.0, 0.0, 1.0]}), "w", D, CFG))
assert [x[0] for x in l] == ["D", "D", "C"], l
"""),
 dict(id="c23-power-scaling-capped", property="C23",
      edits=[(M, """    mwf_config["value_scale"] = reg_params["max_profile_power"] * reg_params["power_scaling"]""", """    mwf_config["value_scale"] = reg_params["max_profile_power"] * min(reg_params["power_scaling"], 1)""")],
      needs="a row with a power scaling above one", breaks="the profile runs at a lower power than asked for",
      demo=P + """
row = dict(discharge_profile="US06", n_repeats=1, max_profile_power=20, power_scaling=1.5, profile_charge_limit=4.1, discharge_cutoff_voltage=2.8)
l = lines(m.insert_driving_parametersv1(row, D))
assert abs(max(float(x[2]) for x in l) - 30) < 1e-6
"""),
 dict(id="c23-gradient-unit-spacing", property="C23",
      edits=[(W, """        m * np.gradient(df.v, df.t)
""", """        m * np.gradient(df.v)
""")],
      needs="a velocity profile that is not sampled every second", breaks="the power of inertia is wrong",
      demo=P + """
f = D + "/v.txt"
open(f, "w").write("t\\tv\\n0\\t0\\n2\\t4\\n4\\t8\\n")
p = convert_velocity_to_power_waveform(f, "mps")["power"]
assert abs(p[2] + (1500 * 2 + 147 + 0.5 * 1.225 * 0.34 * 1.75 * 64) * 8) < 1e-6, list(p)
"""),
 dict(id="c23-stepwise-rate-unchecked", property="C23",
      edits=[(M, """    assert np.max(current_step) <= max_c_rate""", """    assert np.median(current_step) <= max_c_rate""")],
      needs="a stepwise charge with one short window above the limit", breaks="a waveform above the maximum c-rate is written",
      demo=P + """
row = dict(project_name="RapidC", seq_num=1, charge_type_1="step", charge_start_soc=0.05, charge_soc_param_1=0.2, charge_soc_param_2=0.6, charge_fast_soc_limit=0.8,
           charge_current_param_1=3.5, charge_current_param_2=1.0, charge_current_param_3=1.0, charge_current_param_4=1.0, capacity_nominal=4.0, charge_cutoff_voltage=4.2, charge_voltage_offset_1=0)
import numpy as np
class Fake:
    def __init__(self, *a): pass
    def get_currents_with_uniform_time_basis(self, *a):
        return np.array([1.0, 1.0, 1.0, 1.0]), np.array([3.5, 1.0, 1.0, 1.0]), np.arange(4)
for wave in (RapidChargeWave, Fake):
    m.RapidChargeWave = wave
    try:
        m.insert_charging_parametersv1(row, D)
    except AssertionError:
        continue
    raise SystemExit("above the limit: %s" % wave)
"""),
 dict(id="c23-first-run-value", property="C23",
      edits=[(M, """        df = df.groupby("step_counter").agg({"time": "count", "current": "first"})

        df.rename""", """        df = df.groupby(["step_counter"]).agg({"time": "count", "current": "first"}).groupby("current", sort=False).agg({"time": "sum"}).reset_index()

        df.rename""")],
      needs="a current waveform that returns to a value it had before", breaks="separate runs of the same current are merged into one line",
      demo=P + """
l = lines(m.generate_maccor_waveform_file(pd.DataFrame({"time": [0, 1, 2], "current": [-1.0, 0.5, -1.0]}), "w", D, CFG))
assert len(l) == 3, l
"""),
]
