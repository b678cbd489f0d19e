P = "beep/protocol/maccor.py"
PRE = '''
from beep.protocol.maccor import Procedure
reg = dict(charge_constant_current_1=1.0, charge_percent_limit_1=30, charge_constant_current_2=0.5, charge_cutoff_voltage=4.1,
           charge_constant_voltage_time=30, charge_rest_time=5, discharge_constant_current=1.0, discharge_cutoff_voltage=3.0,
           discharge_rest_time=15, capacity_nominal=4.84, diagnostic_start_cycle=30, diagnostic_interval=100)
diag = dict(reset_cycle_current=0.5, reset_cycle_cutoff_current=0.02, diagnostic_charge_cutoff_voltage=4.2,
            diagnostic_discharge_cutoff_voltage=2.7, diagnostic_cutoff_current=0.05, HPPC_baseline_constant_current=0.5,
            HPPC_rest_time=60, HPPC_pulse_current_1=2.0, HPPC_pulse_current_2=1.5, HPPC_pulse_rest_time=40, HPPC_pulse_cutoff_voltage=4.3,
            HPPC_interval=10, HPPC_pulse_duration_1=30, HPPC_pulse_duration_2=10, RPT_charge_constant_current=0.5,
            RPT_discharge_constant_current_1=0.2, RPT_discharge_constant_current_2=1.0, RPT_discharge_constant_current_3=2.0)
def steps(p): return p["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
'''
SEEDS = [
 dict(id="c10-rest-whole-minutes", property="C10",
      edits=[(P, """        time_s = int(round(60 * reg_param["charge_rest_time"]))
        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)

        return self

    def insert_storage_regcyclev3""", """        time_s = 60 * int(round(reg_param["charge_rest_time"]))
        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)

        return self

    def insert_storage_regcyclev3""")],
      needs="a charge rest time that is not a whole number of minutes", breaks="the rest at top of charge is rounded to minutes",
      demo=PRE + '''
p = Procedure.generate_procedure_regcyclev3(0, dict(reg, charge_rest_time=2.5))
q = Procedure.generate_procedure_regcyclev3(0, dict(reg, charge_rest_time=7))
changed = [(a, b) for a, b in zip(steps(p), steps(q)) if a != b]
assert changed
for a, b in changed:
    assert a["Ends"]["EndEntry"][0]["Value"] == "00:02:30", a["Ends"]["EndEntry"][0]["Value"]
    assert b["Ends"]["EndEntry"][0]["Value"] == "00:07:00"
'''),
 dict(id="c10-hppc-interval-floor", property="C10",
      edits=[(P, """                * (diagnostic_params["HPPC_interval"] / 100)
                / diagnostic_params["HPPC_baseline_constant_current"]
                - 1
""", """                * (int(diagnostic_params["HPPC_interval"]) / 100)
                / diagnostic_params["HPPC_baseline_constant_current"]
                - 1
""")],
      needs="an HPPC state-of-charge interval that is not a whole percent", breaks="HPPC discharge segments are shorter than requested",
      demo=PRE + '''
p = Procedure.generate_procedure_regcyclev3(0, reg)
p.generate_procedure_diagcyclev3(4.84, dict(diag, HPPC_interval=12.5))
q = Procedure.generate_procedure_regcyclev3(0, reg)
q.generate_procedure_diagcyclev3(4.84, dict(diag, HPPC_interval=20))
ch = [(a, b) for a, b in zip(steps(p), steps(q)) if a != b]
assert ch
for a, b in ch:
    assert a["Ends"]["EndEntry"][0]["Value"] == "00:14:59", a["Ends"]["EndEntry"][0]["Value"]
    assert b["Ends"]["EndEntry"][0]["Value"] == "00:23:59"
'''),
]
