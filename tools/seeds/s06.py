GEN = '''
import math, numpy as np, pandas as pd
from beep.structure.arbin import ArbinDatapath
from beep.structure.diagnostic import DiagnosticConfig
def rows(cycles, tstep=10.0, per=6):
    out, t = [], 0.0
    for c in cycles:
        q = dq = 0.0
        for k in range(per):
            t += tstep
            chg = k < per // 2
            q += 0.4 if chg else 0.0
            dq += 0.0 if chg else 0.4
            out.append(dict(cycle_index=c, step_index=1 if chg else 2, test_time=t, current=1.0 if chg else -1.0,
                voltage=3.0 + 0.2 * (k + 1) if chg else 3.6 - 0.3 * (k - per // 2), charge_capacity=q, discharge_capacity=dq,
                charge_energy=3.3 * q, discharge_energy=3.2 * dq, internal_resistance=0.02, temperature=25.0,
                date_time_iso=(pd.Timestamp("2020-01-01", tz="UTC") + pd.Timedelta(seconds=t)).isoformat()))
    return out
def dp(rs):
    return ArbinDatapath(pd.DataFrame(rs), {"barcode": "x"}, {"raw": "/none"})
'''
SEEDS = [
 dict(id="c13-throughput-all-cycles", property="C13",
      edits=[("beep/structure/base.py", "        summary = self.raw_data.groupby(\"cycle_index\").agg(self._aggregation)\n        summary.columns = self._summary_cols\n\n        summary = summary[summary.index.isin(reg_cycles)]\n",
              "        summary = self.raw_data.groupby(\"cycle_index\").agg(self._aggregation)\n        summary.columns = self._summary_cols\n        charge_throughput = summary.charge_capacity.cumsum()\n\n        summary = summary[summary.index.isin(reg_cycles)]\n"),
             ("beep/structure/base.py", "        summary[\"charge_throughput\"] = summary.charge_capacity.cumsum()\n", "        summary[\"charge_throughput\"] = charge_throughput\n")],
      needs="a record with diagnostic cycles", breaks="charge throughput of regular cycles also counts the diagnostic cycles while energy throughput does not",
      demo=GEN + '''
d = dp(rows([0, 1, 2, 3]))
d.diagnostic = DiagnosticConfig({"reset": [0, 2]})
s = d.summarize_cycles()
got = s.set_index("cycle_index").charge_throughput.to_dict()
assert abs(got[1] - 1.2) < 1e-5 and abs(got[3] - 2.4) < 1e-5, got
'''),
 dict(id="c13-cv-absolute-voltage-step", property="C13",
      edits=[("beep/structure/base.py", "abs(dV[i]/dt[i]) > dVdt_tol or", "dV[i]/dt[i] > dVdt_tol or")],
      needs="a charge record whose voltage falls while the current changes before the constant-voltage part (e.g. a current step down in a multi-step charge)",
      breaks="the falling part is taken as the beginning of the constant-voltage segment",
      demo='''
import pandas as pd
from beep.structure.base import get_CV_segment_from_charge, get_CV_time
c = pd.DataFrame({"test_time": [0., 10, 20, 30, 40, 50, 60, 70], "voltage": [3.3, 3.5, 3.4, 3.5, 3.55, 3.6, 3.6, 3.6],
                  "current": [4., 4, 2, 2, 2, 2, 1, .5], "charge_capacity": [0., .2, .3, .4, .5, .6, .65, .7]})
s = get_CV_segment_from_charge(c)
assert get_CV_time(s) == 30.0, s
'''),
 dict(id="c13-pause-per-record", property="C13",
      edits=[("beep/structure/base.py", "    if date_time_float.diff().max() > paused_threshold:\n        max_paused_duration = date_time_float.diff().max()\n",
              "    if date_time_float.diff().max() > paused_threshold:\n        max_paused_duration = date_time_float.max() - date_time_float.min()\n")],
      needs="a cycle with a pause of more than an hour and other data points around it", breaks="the pause reported is the whole duration of the cycle",
      demo=GEN + '''
rs = rows([0, 1])
for r in rs[3:]:
    r["date_time_iso"] = (pd.Timestamp(r["date_time_iso"]) + pd.Timedelta(seconds=5000)).isoformat()
d = dp(rs)
assert d.paused_intervals.to_dict() == {0: 5010.0, 1: 0}, d.paused_intervals
'''),
 dict(id="c14-capacity-range-of-cycle", property="C14",
      edits=[("beep/structure/base.py", "                    axis_range = [self.raw_data[axis].min(),\n                                  self.raw_data[axis].max()]",
              "                    axis_range = [cycle_df[axis].min(),\n                                  cycle_df[axis].max()]")],
      needs="cycles of different capacity interpolated on a capacity axis", breaks="every cycle gets its own capacity grid instead of the record's common grid",
      demo=GEN + '''
rs = rows([0, 1])
for r in rs[6:]:
    r["charge_capacity"] *= 0.5
d = dp(rs)
out = d.interpolate_cycles(resolution=7)
c = out[(out.step_type == "charge") & (out.cycle_index == 1)]
assert abs(c.charge_capacity.max() - 1.2) < 1e-5, c.charge_capacity.max()
'''),
 dict(id="c14-run-counter-by-step", property="C14",
      edits=[("beep/structure/base.py", "            shifted = step_index_list.ne(step_index_list.shift()).cumsum()\n", "            shifted = step_index_list.diff().gt(0).cumsum() + 1\n")],
      needs="a diagnostic cycle in which the protocol jumps back to an earlier step (HPPC loops)", breaks="the run after the jump back gets the position of the run before it, so positions no longer count the runs",
      demo=GEN + '''
rs = rows([0, 1], per=8)
for k, r in enumerate(rs):
    r["step_index"] = [1, 1, 2, 2, 1, 1, 2, 2][k % 8]
d = dp(rs)
d.diagnostic = DiagnosticConfig({"hppc": [0]})
out = d.interpolate_diagnostic_cycles(time_resolution=5, voltage_resolution=5)
assert sorted(out.step_index_counter.unique()) == [1, 2, 3, 4], out.step_index_counter.unique()
'''),
 dict(id="c14-missing-before-first", property="C14",
      edits=[("beep/structure/base.py", "    interpolated_df = interpolated_df.interpolate(\"index\")\n", "    interpolated_df = interpolated_df.interpolate(\"index\", limit_direction=\"both\" if len(df) < 5 else \"forward\")\n")],
      needs="a step with fewer than five points interpolated beyond its measured range", breaks="points before the first measured one are filled instead of missing",
      demo='''
import numpy as np, pandas as pd
from beep.structure.base import interpolate_df
df = pd.DataFrame({"voltage": [3.0, 3.2, 3.4], "test_time": [1.0, 2.0, 3.0]})
out = interpolate_df(df, "voltage", field_range=[2.8, 3.6], resolution=9)
assert out.test_time.isna().sum() == 2, out
'''),
]
