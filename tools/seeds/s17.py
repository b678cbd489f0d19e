V2 = "beep/features/intracell_analysis_v2.py"
L2 = "beep/features/intracell_losses_v2.py"
B = "beep/structure/base.py"
SP = "beep/prediction/beep_data_splitter.py"
P = """
import os, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
import beep.features.intracell_analysis_v2 as m
D = os.environ["DEMO_DIR"]
soc = np.linspace(0, 100, 1001)
pe = pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": 3.0 + 1.3 * (soc / 100) ** 0.6})
ne = pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": 0.05 + 0.8 * np.exp(-soc / 10) + 0.1 * (1 - soc / 100)})
pe.to_csv(D + "/pe.csv"); ne.to_csv(D + "/ne.csv")
a = m.IntracellAnalysisV2(D + "/pe.csv", D + "/ne.csv")
E = pd.DataFrame()
def cell(lli, qp, qn, real=None):
    if real is None:
        real = pd.DataFrame({"Q_aligned": np.linspace(0, 4.0, 500), "Voltage_aligned": np.linspace(2.8, 4.15, 500)})
    return a.halfcell_degradation_matching_ah([lli, qp, qn, 1], a.pe_pristine, a.ne_1_pristine, E, E, real)
"""
SEEDS = [
 dict(id="c26-soc-wrong-voltage", property="C26",
      edits=[(V2, """    electrode_info_df['ne_soc_FC3p3V'] = (
                (ne_out_zeroed.loc[np.argmin(np.abs(pe_minus_ne_zeroed.Voltage_aligned - 3.3))].Q_aligned -""",
              """    electrode_info_df['ne_soc_FC3p3V'] = (
                (ne_out_zeroed.loc[np.argmin(np.abs(pe_minus_ne_zeroed.Voltage_aligned - 3.2))].Q_aligned -""")],
      needs="looking at one of 68 figures at a cell whose samples differ between 3.2 and 3.3 V", breaks="the negative electrode's state of charge at 3.3 V is that at 3.2 V",
      demo=P + """
p, n, r, e = cell(0.3, 5.0, 5.2)
i = m.get_electrode_info_ah(p, n)
fc = (p.Voltage_aligned - n.Voltage_aligned)
k = int(np.nanargmin(np.abs(fc - 3.3)))
q = n.Q_aligned[n.Voltage_aligned.notna()]
assert abs(i.ne_soc_FC3p3V[0] - (n.Q_aligned[k] - q.min()) / (q.max() - q.min())) < 1e-9
"""),
 dict(id="c26-soc-of-other-span", property="C26",
      edits=[(V2, """    electrode_info_df['Q_li'] = np.max(
        pe_minus_ne_zeroed['Q_aligned'].loc[~pe_minus_ne_zeroed.Voltage_aligned.isna()]) - np.min(
        pe_minus_ne_zeroed['Q_aligned'].loc[~pe_minus_ne_zeroed.Voltage_aligned.isna()])""",
              """    electrode_info_df['Q_li'] = np.max(
        pe_minus_ne_zeroed['Q_aligned'].loc[~pe_out_zeroed.Voltage_aligned.isna()]) - np.min(
        pe_minus_ne_zeroed['Q_aligned'].loc[~pe_minus_ne_zeroed.Voltage_aligned.isna()])""")],
      needs="a positive electrode that reaches further than the negative one", breaks="the lithium capacity counts capacity where only one electrode exists",
      demo=P + """
p, n, r, e = cell(0.0, 6.0, 4.0)
i = m.get_electrode_info_ah(p, n)
both = (p.Voltage_aligned - n.Voltage_aligned).notna()
assert abs(i.Q_li[0] - (p.Q_aligned[both].max() - p.Q_aligned[both].min())) < 1e-9
"""),
 dict(id="c26-zero-at-first-kept", property="C26",
      edits=[(V2, """        zeroing_value = emulated_full_cell_with_degradation['Q_aligned'].loc[
            np.nanargmin(emulated_full_cell_with_degradation['Voltage_aligned'])
        ]

        emulated_full_cell_with_degradation_zeroed['Q_aligned'] = \\
            (emulated_full_cell_with_degradation['Q_aligned'].copy() - zeroing_value)

        pe_out_zeroed = pe_out.copy()""", """        zeroing_value = emulated_full_cell_with_degradation['Q_aligned'].loc[
            pe_out['Voltage_aligned'].first_valid_index()
        ]

        emulated_full_cell_with_degradation_zeroed['Q_aligned'] = \\
            (emulated_full_cell_with_degradation['Q_aligned'].copy() - zeroing_value)

        pe_out_zeroed = pe_out.copy()""")],
      needs="a lithium inventory loss (electrodes not starting together)", breaks="capacities are counted from the start of the positive electrode instead of the cell's lowest voltage",
      demo=P + """
p, n, r, e = cell(0.5, 5.0, 5.0)
fc = p.Voltage_aligned - n.Voltage_aligned
fc = fc[(fc >= 2.7) & (fc <= 4.2)]
assert abs(p.Q_aligned[fc.idxmin()]) < 1e-9
"""),
 dict(id="c26-parameters-swapped", property="C26",
      edits=[(V2, """        q_pe_opt = degradation_optimization_result.x[1]
        q_ne_opt = degradation_optimization_result.x[2]
        x_ne_2 = degradation_optimization_result.x[3]

        loss_dict""", """        q_ne_opt = degradation_optimization_result.x[1]
        q_pe_opt = degradation_optimization_result.x[2]
        x_ne_2 = degradation_optimization_result.x[3]

        loss_dict""")],
      needs="electrodes of different capacity", breaks="the fitted electrode capacities are reported for the other electrode",
      demo=P + """
class R:
    x, fun = [0.1, 4.5, 5.5, 1.0], 0.2
m.differential_evolution = lambda *a, **k: R()
rows = [{"cycle_index": 7, "cycle_type": "rpt_0.2C", "step_type": 0, "voltage": v, "charge_capacity": q} for q, v in zip(np.linspace(0, 4, 80), np.linspace(2.8, 4.19, 80))]
S = type("S", (), {})(); S.diagnostic_data = pd.DataFrame(rows)
loss, prof = a.intracell_values_wrapper_ah(7, S)
assert list(loss[7][:5]) == [0.2, 0.1, 4.5, 5.5, 1.0], loss[7][:5]
"""),
 dict(id="c26-profile-of-all-types", property="C26",
      edits=[(V2, """        real_cell_candidate_charge_profile = diag_type_cycles.loc[
            (diag_type_cycles.cycle_index == cycle_index)
            & (diag_type_cycles.step_type == 0)  # step_type = 0 is charge, 1 is discharge
            & (diag_type_cycles.voltage < self.FC_UPPER_VOLTAGE)""", """        real_cell_candidate_charge_profile = diag_type_cycles.loc[
            (diag_type_cycles.cycle_index >= cycle_index)
            & (diag_type_cycles.step_type == 0)  # step_type = 0 is charge, 1 is discharge
            & (diag_type_cycles.voltage < self.FC_UPPER_VOLTAGE)""")],
      needs="a record with a later diagnostic of the same type", breaks="the profile mixes later diagnostic cycles in",
      demo=P + """
rows = [{"cycle_index": c, "cycle_type": "rpt_0.2C", "step_type": 0, "voltage": v - 0.001 * c, "charge_capacity": q * (1 - 0.01 * c)} for c in (1, 9) for q, v in zip(np.linspace(0.01, 4, 80), np.linspace(2.8, 4.19, 80))]
S = type("S", (), {})(); S.diagnostic_data = pd.DataFrame(rows)
f = a.process_beep_cycle_data_for_candidate_halfcell_analysis_ah(S, 1)
assert np.allclose(f.Voltage_aligned[10:], np.interp(f.Q_aligned, np.linspace(0.01, 4, 80) * 0.99, np.linspace(2.8, 4.19, 80) - 0.001)[10:])
"""),
 dict(id="c26-two-lowest-cycles", property="C26",
      edits=[(L2, """        for i, cycle_index in enumerate(eol_cycle_index_list[0:2]):""", """        for i, cycle_index in enumerate(self.datapath.diagnostic_summary.cycle_index[
                self.datapath.diagnostic_summary.cycle_type == ia.cycle_type].to_list()[0:2]):""")],
      needs="a diagnostic cycle of the requested type with capacity at the threshold (0) before two good ones", breaks="features come from a cycle without capacity",
      demo="""
import warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
import beep.features.intracell_losses_v2 as m
seen = []
class F:
    THRESHOLD = 0.0
    def __init__(self, *a, **k): self.cycle_type = "rpt_0.2C"
    def intracell_values_wrapper_ah(self, c, s, *a):
        seen.append(c)
        return {c: np.full(73, float(c))}, {c: {}}
m.IntracellAnalysisV2 = F
f = m.IntracellFeaturesV2(None)
f.datapath = type("D", (), {})()
f.datapath.diagnostic_summary = pd.DataFrame({"cycle_index": [1, 36, 140], "cycle_type": ["rpt_0.2C"] * 3, "discharge_capacity": [0.0, 4.0, 3.9]})
f.create_features()
assert seen == [36, 140], seen
"""),
 dict(id="c14-diagnostic-resolution", property="C14",
      edits=[(B, """                time_resolution=diagnostic_resolution,
                voltage_resolution=diagnostic_resolution
""", """                time_resolution=resolution,
                voltage_resolution=diagnostic_resolution
""")],
      needs="a diagnostic step without voltage change, and different resolutions for the two kinds of cycles", breaks="diagnostic steps interpolated over time get the wrong number of points",
      demo="""
import warnings
warnings.simplefilter("ignore")
from beep.structure.arbin import ArbinDatapath
from beep.structure.diagnostic import DiagnosticConfig
dp = ArbinDatapath(raw_data=None, metadata={})
dp.diagnostic = DiagnosticConfig({"reset": [1]})
seen = {}
dp.summarize_diagnostic = lambda: None
dp.summarize_cycles = lambda **k: None
dp.interpolate_cycles = lambda **k: None
dp.interpolate_diagnostic_cycles = lambda **k: seen.update(k)
dp.structure(resolution=50, diagnostic_resolution=20)
assert set(seen.values()) == {20}, seen
"""),
 dict(id="c19-exclusion-column-ignored", property="C19",
      edits=[(SP, """        if exclusion_columns is not None:
            missing_columns += [t for t in exclusion_columns if t not in self.feature_matrix.matrix.columns] 
""", """        if exclusion_columns is not None:
            exclusion_columns = [t for t in exclusion_columns if t in self.feature_matrix.matrix.columns] or None
""")],
      needs="an exclusion column that is misspelt or absent", breaks="samples that should be excluded are silently used",
      demo="""
import warnings
warnings.simplefilter("ignore")
import pandas as pd
from beep.prediction.beep_data_splitter import BEEPDataSplitter, BEEPDataSplitterError
fm = type("M", (), {})()
fm.matrix = pd.DataFrame({"f::S::h": [1.0, 2.0, 3.0, 4.0], "t::T::h": [1.0, 2.0, 3.0, 4.0]}, index=list("abcd"))
try:
    BEEPDataSplitter(fm, ["f::S"], ["t::T"], exclusion_columns=["ok::E"])
except BEEPDataSplitterError:
    pass
else:
    raise SystemExit("accepted a missing exclusion column")
"""),
]
