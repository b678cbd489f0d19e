
P = """
import os, tempfile, pandas as pd, numpy as np
D = tempfile.mkdtemp()
"""
MAC = P + """
from beep.structure.maccor import MaccorDatapath
def rec(rows):
    df = pd.DataFrame(rows, columns=["cycle_index", "step_index", "_state", "_ending_status", "_capacity", "_energy", "_wf_chg_cap", "_wf_dis_cap", "_wf_chg_e", "_wf_dis_e"])
    return df
N = float("nan")
"""
SEEDS = [
 dict(id="c18-cycle-change-inside-step", property="C18",
      edits=[("beep/structure/maccor.py", """        for end_step_ind in end_step_inds:
            # Detect whether cycle changed and reset accumulator if so
            if (
                data.loc[begin_step_ind - 1, "cycle_index"]
                != data.loc[begin_step_ind, "cycle_index"]
            ):""", """        for end_step_ind in end_step_inds:
            # Detect whether cycle changed and reset accumulator if so
            if (
                data.loc[begin_step_ind, "cycle_index"]
                != data.loc[end_step_ind, "cycle_index"]
            ):""")],
      needs="a second cycle whose first step charges after a charge of the previous cycle", breaks="capacity is not reset at the start of a cycle",
      demo=MAC + """
x = MaccorDatapath.quantity_sum(rec([(1, 1, "C", 1, 0.0, 0, N, N, N, N), (1, 1, "C", 130, 2.0, 0, N, N, N, N), (2, 2, "C", 1, 0.5, 0, N, N, N, N), (2, 2, "C", 130, 1.0, 0, N, N, N, N), (2, 3, "R", 130, 0, 0, N, N, N, N)]), "capacity", "charge")
assert list(x) == [0.0, 2.0, 0.5, 1.0, 1.0], list(x)
"""),
 dict(id="c18-waveform-end-inside", property="C18",
      edits=[("beep/structure/maccor.py", "        end_step_inds = end_step.index[np.logical_and(list(end_step), list(is_step_change))]", "        end_step_inds = end_step.index[np.logical_or(list(is_step_change), np.logical_and(list(end_step), list(data['_wf_chg_cap'].notna())))]")],
      needs="a waveform step with end-of-step status on records inside the step", breaks="records of a waveform step are counted several times",
      demo=MAC + """
x = MaccorDatapath.quantity_sum(rec([(1, 1, "C", 130, 1.0, 0, N, N, N, N), (1, 2, "D", 130, 0.0, 0, 0.0, 1.0, 0, 0), (1, 2, "D", 130, 0, 0, 0.0, 2.0, 0, 0), (1, 2, "D", 130, 0, 0, 0.0, 3.0, 0, 0), (1, 3, "C", 130, 1, 0, N, N, N, N), (1, 4, "R", 1, 0, 0, N, N, N, N)]), "capacity", "discharge")
assert list(x)[1:4] == [1.0, 2.0, 3.0], list(x)
"""),
 dict(id="c18-archive-small-current", property="C18",
      edits=[("beep/structure/battery_archive.py", "    if np.abs(i) < 1e-6:", "    if np.abs(i) < 1e-2:")],
      needs="a charge or discharge with a current below 10 mA (small cells, end of a CV step)", breaks="records with small current are labelled rest",
      demo=P + """
from beep.structure.battery_archive import BatteryArchiveDatapath
p = os.path.join(D, "x_timeseries.csv")
n = 4
pd.DataFrame({"Date_Time": ["2021-01-01 00:00:%02d.000000" % i for i in range(n)], "Test_Time (s)": [0.0, 1, 2, 3], "Cycle_Index": [1] * n, "Current (A)": [0.005, 0.004, 0.0, -0.005], "Voltage (V)": [3.0] * n,
              "Charge_Capacity (Ah)": [0.0] * n, "Discharge_Capacity (Ah)": [0.0] * n, "Charge_Energy (Wh)": [0.0] * n, "Discharge_Energy (Wh)": [0.0] * n}).to_csv(p, index=False)
d = BatteryArchiveDatapath.from_file(p).raw_data
assert list(d.step_index) == [2, 2, 1, 3], list(d.step_index)
"""),
 dict(id="c18-novonix-last-charge", property="C18",
      edits=[("beep/structure/novonix.py", """[f"charge_{convention}"].transform("max")""", """[f"charge_{convention}"].transform("last")""")],
      needs="a cycle with a second, smaller charge after the discharge", breaks="discharge capacity counts from the last instead of the largest charge of the cycle",
      demo=P + """
from beep.structure.novonix import NovonixDatapath
p = os.path.join(D, "x_CH01.csv")
head = "Date and Time,Cycle Number,Step Type,Run Time (h),Step Time (h),Current (A),Potential (V),Capacity (Ah),Temperature (\u00b0C),Circuit Temperature (\u00b0C),Energy (Wh),dVdt (I/h),dIdt (V/h),Step Number,Step position"
rows = [(1, 1, 0.1), (1, 1, 0.5), (1, 2, 0.4), (1, 2, 0.0), (1, 1, 0.2)]
with open(p, "w", encoding="utf-8") as f:
    f.write("[Summary]\\nChannel: 1\\n[End Summary]\\n[Data]\\n\\"%s\\"\\n" % head)
    for i, (c, s, q) in enumerate(rows):
        f.write("\\"2022-04-11 10:58:%02d AM,%d,%d,0.1,0.1,0.1,3.3,%s,25.0,25.0,%s,0,0,1,0\\"\\n" % (i, c, s, q, q))
d = NovonixDatapath.from_file(p).raw_data
assert np.allclose(d.discharge_capacity.dropna(), [0.1, 0.5]), d.discharge_capacity
"""),
 dict(id="c18-maccor-garbled-date", property="C18",
      edits=[("beep/structure/maccor.py", """            x = x + " 00:00:00"
            iso = (
                pacific.localize(datetime.strptime(x, "%m/%d/%Y %H:%M:%S"),
                                 is_dst=True)""", """            iso = (
                pacific.localize(datetime.strptime(x[:10], "%m/%d/%Y"),
                                 is_dst=False)""")],
      needs="a record whose time of day is garbled", breaks="the garbled record is silently dated to midnight",
      demo=MAC + """
f = MaccorDatapath.correct_timestamp
assert f("10/21/2019") == "2019-10-21T07:00:00+00:00"
try:
    r = f("10/21/2019 1a:59:59")
except ValueError:
    r = None
assert r is None, r
"""),
 dict(id="c18-biologic-standard-time", property="C18",
      edits=[("beep/structure/biologic.py", """                                       is_dst=True).astimezone(utc).isoformat()""", """                                       is_dst=False).astimezone(utc).isoformat()""")],
      needs="a record in the repeated hour at the end of daylight saving time", breaks="the record's UTC time is an hour late",
      demo=P + """
from beep.structure.biologic import BiologicDatapath
p = os.path.join(D, "x_MB_CE1.csv")
open(p, "w").write("time/s;Ecell/V;I/mA;cycle number;Q charge/mA.h;Q discharge/mA.h;Energy charge/W.h;Energy discharge/W.h;Ns;cycle_index\\n11/07/2021 01:30:00.000;3;1;0;0;0;0;0;0;1\\n")
open(p.replace(".csv", ".mpl"), "w", newline="").write("Run on channel : A1 (SN 1)\\r\\nComments : x\\r\\nCycle Definition : y\\r\\n\\r\\n")
d = BiologicDatapath.from_file(p).raw_data
assert d.date_time_iso[0] == "2021-11-07T08:30:00+00:00", d.date_time_iso[0]
"""),
 dict(id="c18-indigo-start-first-row", property="C18",
      edits=[("beep/structure/indigo.py", """data.sort_values(by="system_time_us")[
            "date_time_iso"
        ].iloc[0]""", """data["date_time_iso"].iloc[0]""")],
      needs="a file whose records are not in time order", breaks="start time is that of the first row, not the earliest record",
      demo=P + """
import h5py
from beep.structure.indigo import IndigoDatapath
p = os.path.join(D, "x.h5")
with h5py.File(p, "w") as f:
    g = f.create_group("time_series_data")
    g["axis1"] = np.arange(2)
    for b, (items, vals) in enumerate([(["cell_voltage_v", "cell_current_a", "cell_coulomb_count_c", "cell_energy_j", "cell_temperature_c"], [[3.0, 1, 1, 1, 25], [3, 1, 2, 2, 25]]), (["cell_id", "cycle_count", "half_cycle_count"], [[1, 1, 1], [1, 1, 1]]), (["system_time_us"], [[1600000001000000], [1600000000000000]])]):
        g["block%d_items" % b] = np.array(items, dtype="S")
        g["block%d_values" % b] = np.array(vals)
m = IndigoDatapath.from_file(p).metadata.raw
assert m["start_datetime"] == "2020-09-13T12:26:40+00:00", m
"""),
]
