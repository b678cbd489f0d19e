PD = '''
import os, tempfile, pandas as pd, numpy as np
from beep.structure.arbin import ArbinDatapath
from beep.features import core, featurizer_helpers as fh
D = tempfile.mkdtemp()
pd.DataFrame({"project_name": ["Prj"] * 2, "seq_num": [1, 2], "capacity_nominal": [2.0, 4.0], "diagnostic_start_cycle": [30, 40], "diagnostic_interval": [100, 200],
              "charge_constant_current_1": [1.0, 3.0], "charge_constant_current_2": [2.0, 1.0], "charge_cutoff_voltage": [3.6, 3.7]}).to_csv(os.path.join(D, "Prj_parameters.csv"), index=False)
def run(summary=None, data=None, dsum=None, ddata=None):
    dp = ArbinDatapath(None, {"barcode": "b", "protocol": "Prj_000001.sdu", "channel_id": 1}, {"raw": "/none/Prj_000001.sdu", "structured": "/none/s.json"})
    dp.structured_summary, dp.structured_data, dp.diagnostic_summary, dp.diagnostic_data = [None if x is None else pd.DataFrame(x) for x in (summary, data, dsum, ddata)]
    dp.structuring_parameters = {}
    return dp
def life(fr, blocks=(3, 3, 3)):
    reg, dia, k = [0], [], 1
    for n in tuple(blocks) + (0,):
        for t in ("reset", "rpt_0.2C", "rpt_1C"):
            dia.append((k, t)); k += 1
        for _ in range(n):
            reg.append(k); k += 1
    S = {"cycle_index": reg, "discharge_capacity": [1.0] * len(reg), "discharge_energy": [2.0] * len(reg), "charge_throughput": [10.0 * i for i in range(len(reg))]}
    S["charge_capacity"], S["charge_energy"] = S["discharge_capacity"], S["discharge_energy"]
    Dg = {"cycle_index": [c for c, _ in dia], "cycle_type": [t for _, t in dia], "date_time_iso": ["2020-01-%02dT00:00:00+00:00" % (i + 1) for i in range(len(dia))]}
    for q in ("discharge_capacity", "discharge_energy", "charge_capacity", "charge_energy"):
        Dg[q] = [3.0 * fr(i) for i in range(len(dia))]
    return S, Dg
'''
SEEDS = [
 dict(id="c17-fraction-of-own-type", property="C17",
      edits=[("beep/features/featurizer_helpers.py", "    summary_diag_cycle_type.loc[:, metric] = (\n        summary_diag_cycle_type[metric]\n        / processed_cycler_run.diagnostic_summary[metric].iloc[0]\n    )\n\n    if",
              "    summary_diag_cycle_type.loc[:, metric] = (\n        summary_diag_cycle_type[metric]\n        / processed_cycler_run.diagnostic_summary[metric].max()\n    )\n\n    if")],
      needs="a cell whose capacity first rises, so that a later diagnostic is larger than the first one", breaks="fractions are relative to the largest instead of the first diagnostic",
      demo=PD + '''
S, Dg = life(lambda i: 1.0 + 0.05 * i if i < 4 else 1.0 - 0.02 * i)
X = fh.get_fractional_quantity_remaining_nx(run(S, dsum=Dg), "discharge_capacity", "reset", parameters_path=D)
assert abs(X.fractional_metric.iloc[0] - 1.0) < 1e-9, X
'''),
 dict(id="c17-exclusion-cut-at-last", property="C17",
      edits=[("beep/features/core.py", "            cutoff_cycle_index = diag_fractional_quantity_remaining[is_below_threshold].iloc[0][\"cycle_index\"]", "            cutoff_cycle_index = diag_fractional_quantity_remaining[is_below_threshold].iloc[-1][\"cycle_index\"]")],
      needs="a cell cycled on after the diagnostic that reached the end of life", breaks="equivalent full cycles at end of life are counted up to the last diagnostic",
      demo=PD + '''
S, Dg = life(lambda i: 1.0 - 0.04 * i, (3, 3, 3, 3))
dp = run(S, {"cycle_index": [0]}, Dg, {"cycle_index": [0]})
f = core.ExclusionCriteria(dp, {"parameters_dir": D, "EOL_conditions": {"cycle_type": "reset", "threshold": 0.8, "quantity": "discharge_capacity"}, "throughput_first_n_cycles": {"n": 3, "cutoff": 20}, "equivalent_full_cycles_cutoff": 3, "early_CV_cutoff": 0.3})
f.create_features()
assert f.features["equivalent_full_cycles_at_EOL"].iloc[0] == 60 / 2.0, f.features.T
'''),
 dict(id="c17-resistance-rest-order", property="C17",
      edits=[("beep/features/featurizer_helpers.py", "    chosen_step_ocv = chosen_step_ocv.sort_values(by='test_time')\n", "    chosen_step_ocv = chosen_step_ocv.sort_values(by='voltage')\n")],
      needs="a rest in which the voltage falls or is not monotonic (after the charge pulse of an aged cell)", breaks="the open-circuit voltage of the resistance is not the voltage at the end of the rest",
      demo=PD + '''
rows = []
t = 0.0
for ctr, (st, vs, i) in enumerate([(1, [3.5], 2.0), (2, [4.0, 3.95, 3.9], 0.0), (3, [3.8, 3.7], -2.0), (4, [3.8, 3.85], 0.0), (5, [3.9, 4.0], 1.0), (6, [3.8, 3.7], -1.0), (7, [3.0], -1.0)]):
    for v in vs:
        rows.append(dict(cycle_index=2, cycle_type="hppc", step_index=st, step_index_counter=ctr, test_time=t, voltage=v, current=i))
        t += 5
    t += 1
X = fh.get_resistance_soc_duration_hppc(run(ddata=rows), 0)
assert abs(X["r_d_end_0"].iloc[0] - (3.7 - 3.9) / -2.0) < 1e-9, X.T
'''),
 dict(id="c17-charge-time-row-zero", property="C17",
      edits=[("beep/features/core.py", "        X[4] = np.nanmean(summary.charge_duration.iloc[1:6])\n", "        X[4] = np.nanmean(summary.charge_duration.loc[1:6])\n")],
      needs="a sixth cycle whose charge time differs from the mean of the five before", breaks="the mean charge time is over six cycles instead of five",
      demo=PD + '''
N = 120
S = {"cycle_index": range(N)}
for c in ("discharge_capacity", "dc_internal_resistance", "temperature_maximum", "temperature_minimum", "time_temperature_integrated"):
    S[c] = [1.0 - 0.001 * i for i in range(N)]
S["charge_duration"] = [100.0 if i != 6 else 900.0 for i in range(N)]
dp = run(S, {"cycle_index": [9] * 3 + [99] * 3, "discharge_capacity": [.1, .2, .3, .2, .4, .7]})
f = core.DeltaQFastCharge(dp); f.create_features()
assert f.features["charge_time_cycles_1:5"].iloc[0] == 100.0, f.features.T
'''),
 dict(id="c17-diag-step-of-first", property="C17",
      edits=[("beep/features/core.py", "                             (diag_intrp.step_index == step_dict_1[\n                                 self.hyperparameters[\n                                     \"diagnostic_cycle_type\"] + '_charge']))\n        mask_pos_0_discharge",
              "                             (diag_intrp.current > 0))\n        mask_pos_0_discharge")],
      needs="a diagnostic charge with points at zero current or missing current (relaxation at the end of the charge)", breaks="points of the charge step are left out of the difference (lengths differ or values shift)",
      demo=PD + '''
rows, t = [], 0.0
for c in (1, 40):
    for st, cur, cc in ((5, 1.0, 0), (6, -1.0, 1)):
        for i in range(4):
            t += 10
            r = dict(cycle_index=c, cycle_type="rpt_0.2C", step_index=st + c, step_index_counter=c * 10 + cc, test_time=t, current=0.0 if i == 3 else cur)
            for j, q in enumerate(("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "charge_dQdV", "discharge_dQdV")):
                r[q] = 0.1 * i * i + 0.01 * c * (i + 1) + j
            rows.append(r)
ds = pd.DataFrame({"cycle_index": [1, 40] * 3, "cycle_type": ["rpt_0.2C"] * 2 + ["rpt_1C"] * 2 + ["rpt_2C"] * 2})
for q in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"):
    ds[q] = [1.0, 0.9] * 3
f = core.DiagnosticSummaryStats(run({"cycle_index": [0]}, dsum=ds, ddata=rows), dict(core.DiagnosticSummaryStats.DEFAULT_HYPERPARAMETERS, parameters_path=D, diagnostic_cycle_type="rpt_0.2C", diag_pos_list=[0, 1]))
f.create_features()
assert abs(f.features["mean_charging_capacity"].iloc[0] - np.log10(0.39 * 2.5)) < 1e-9
'''),
 dict(id="c17-threshold-grid-origin", property="C17",
      edits=[("beep/features/core.py", "                    np.linspace(x_axis.min(), x_axis.max(), num=1000))", "                    np.linspace(x_axis.min(), x_axis.max(), num=len(x_axis) * 10))")],
      needs="a crossing between two diagnostics, looked at with more than coarse precision", breaks="the crossing is only found to a tenth of the distance between diagnostics",
      demo=PD + '''
S, Dg = life(lambda i: 1.0 - 0.0407 * i, (30, 40, 50))
f = core.DiagnosticProperties(run(S, {"cycle_index": [0]}, Dg, {"cycle_index": [0]}), dict(core.DiagnosticProperties.DEFAULT_HYPERPARAMETERS, parameters_dir=D, cycle_type="reset", metric="discharge_energy", threshold=0.8))
f.create_features()
x = [c for c, t in zip(Dg["cycle_index"], Dg["cycle_type"]) if t == "reset"]
y = [1.0 - 0.0407 * i for i in (0, 3, 6, 9)]
k = next(i for i in range(4) if y[i] <= 0.8)
cr = x[k - 1] + (0.8 - y[k - 1]) / (y[k] - y[k - 1]) * (x[k] - x[k - 1])
g = f.features["resetdischarge_energy0.8_cycle_index"].iloc[0]
assert abs(g - cr) <= 1.01 * (x[2] - x[0]) / 999, (g, cr)
'''),
]
