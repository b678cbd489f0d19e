"""C17: features are the documented functions of the structured run."""
import math

from vc.harness import harness
from vc.values import Sym, and_, or_, not_, implies

FC = "beep.features.core"
FH = "beep.features.featurizer_helpers"
FB = "beep.features.base"
A = "beep.structure.arbin"

META = {
    "title": "Features are the documented functions of the structured run",
    "statement": "Every featurizer computes its documented quantities from the structured tables of its run, for its hyperparameters, and leaves the run and the hyperparameters unchanged. Cycle and diagnostic summary statistics are, for every requested statistic (any number, any order), log10 of the absolute variance, minimum, mean, skew, kurtosis, sum of absolute values or sum of squares of the difference of the charge (discharge) quantity between the two chosen cycles (later minus earlier position as given), plus the fractional changes of the diagnostic summary per cycle type. Fast-charge features are the documented capacities, slopes, intercepts, extremes, means, sums, resistances and differences over the hyperparameters' cycles; missing interpolated capacity gives missing features. Fractional quantities are relative to the first diagnostic cycle, with regular and diagnostic throughput before the diagnostic normalised by the throughput of the initial regular cycles, the parameters of the run's own protocol and the time of the diagnostic. Thresholds are the crossings (interpolated, or extrapolated if allowed; refused otherwise) of the chosen cycle type and metric on each axis. HPPC features are the changes of pulse resistances, rest voltages, voltage curves and diffusion slopes of the chosen diagnostic against the first. Exclusion flags are the documented comparisons and to_include their conjunction; image channels hold the interpolated values of their position, cycle type, metric and step; the charging protocol is the parameter row of the file's sequence number; trajectories are the cycles at which the capacity thresholds are reached. validate() accepts exactly runs with the data needed.",
    "over": ["inputs"],
    "qtext": "every structured run (all real values of the tables, layouts of cycles, diagnostics and steps) and every hyperparameter set",
    "why": "tests compare a few feature values of a few recorded runs with default hyperparameters; other hyperparameters, cycle layouts, step numbers, missing values and final diagnostics are never sampled",
    "files": ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
    "mechanism": [{"name": "CycleSummaryStats / DiagnosticSummaryStats.create_features", "where": "beep/features/core.py:140"},
                  {"name": "DeltaQFastCharge.create_features", "where": "beep/features/core.py:530"},
                  {"name": "DiagnosticProperties.get_threshold_targets", "where": "beep/features/core.py:811"},
                  {"name": "ExclusionCriteria / RawInterpolatedData / ChargingProtocol / TrajectoryFastCharge", "where": "beep/features/core.py:922"},
                  {"name": "get_fractional_quantity_remaining_nx, HPPC helpers", "where": "beep/features/featurizer_helpers.py"}],
    "observe": ["beep.features.core.*.validate", "beep.features.core.*.create_features", "beep.features.featurizer_helpers.get_fractional_quantity_remaining_nx", "beep.features.featurizer_helpers.get_resistance_soc_duration_hppc"],
    "level": "proof",
    "level_note": "summary statistics, DeltaQFastCharge, fractional quantities, HPPC pulse resistances and validate(): obligations discharged for all real cell values on the real pandas code, per layout (2-3 points per step, 3 diagnostics, 17 regular cycles: layouts bounded, values not); thresholds, whole HPPC featurizer, exclusion criteria, images, protocol, trajectories: bounded stand-ins on generated runs against independent oracles",
    "assumptions": ["pandas selects, concatenates, groups and aligns cells as it does on floats (real pandas executed on object columns of symbolic cells)",
                    "log10, skew and kurtosis are uninterpreted functions of their arguments; numpy reductions (mean, var, min, max, median, sum, polyfit degree 1) have their mathematical definition over the reals",
                    "scipy interp1d, curve_fit as installed (executed)"],
    "bounded": ["layouts: number of points per step, cycles and diagnostics", "the threshold crossing is required only to within one step of the 1000-point grid the code uses",
                "get_hppc_ocv_helper reads one point near the end of the rest: only runs at rest voltage there are judged"],
}

STATS = ["var", "min", "mean", "skew", "kurtosis", "abs", "square"]


def run_of(H, summary=None, data=None, dsum=None, ddata=None, protocol="x", params=None):
    dp = H.mod(A).ArbinDatapath(raw_data=None, metadata={"barcode": "b", "protocol": protocol, "channel_id": 1}, paths={"raw": "/none/%s" % protocol, "structured": "/none/s.json"})
    dp.structured_summary = summary
    dp.structured_data = data
    dp.diagnostic_summary = dsum
    dp.diagnostic_data = ddata
    dp.structuring_parameters = params or {}
    return dp


def veq(H, a, b):
    """equal values; both missing or both the same infinity count as equal"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return H.eq(a, b)
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def logabs(H, x):
    return H.stat("log10", abs(x))


def statistic(H, name, xs):
    """the documented statistic: log10 of the absolute value of ..."""
    if name == "var":
        return H.stat("log10", H.stat("var", xs))
    if name in ("min", "mean", "skew"):
        return logabs(H, H.stat(name, xs))
    if name == "kurtosis":
        return logabs(H, H.stat("kurtosis", xs, False, False))
    if name == "abs":
        return H.stat("log10", H.stat("sum", [abs(x) for x in xs]))
    return H.stat("log10", H.stat("sum", [x * x for x in xs]))


Q = ["charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy"]
QN = ["charging_capacity", "discharging_capacity", "charging_energy", "discharging_energy"]


def snapshot(dp):
    return {a: (None if getattr(dp, a) is None else getattr(dp, a).copy(deep=True)) for a in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data")}


def unchanged(dp, snap):
    for a, s in snap.items():
        t = getattr(dp, a)
        if (s is None) != (t is None):
            return False
        if s is None:
            continue
        if list(s.columns) != list(t.columns) or list(s.index) != list(t.index):
            return False
        for c in s.columns:
            for p, q in zip(s[c].tolist(), t[c].tolist()):
                if p is not q and not (isinstance(p, (int, float, str, type(None))) and (p == q or p != p and q != q)):
                    return False
    return True


@harness("C17", "cycle_summary_stats", conc=80, targets=[FC], budget=200)
def h_css(H):
    n = H.choice("points", [2, 3])
    a, b = H.choice("cycles", [(10, 100), (7, 3)])
    st = H.choice("statistics", [["mean"], ["square", "var"], STATS, ["kurtosis", "abs", "min", "skew"]])
    only = H.choice("quantity", [0, 1, 2, 3])
    hole = H.choice("gap", [None, 0, n - 1])          # a point outside the measured voltage range
    cols = {"cycle_index": [], "step_type": [], **{q: [] for q in Q}}
    vals = {}
    other = 55
    for c in (a, other, b):
        for s in ("charge", "discharge"):
            for i in range(n):
                cols["cycle_index"].append(c)
                cols["step_type"].append(s)
                for j, q in enumerate(Q):
                    v = H.real("v_%d_%s_%d_%d" % (c, s[0], i, j), 0, 10) if j == only and c != other else 0.1 * i * i + 0.01 * c + 0.2 * j + (0.05 * i * c if s == "charge" else 0.3)
                    if c == a and i == hole:
                        v = float("nan")
                    cols[q].append(v)
                    vals[(c, s, i, q)] = v
    dp = run_of(H, summary=H.pframe({"cycle_index": [a, b]}), data=H.pframe(cols))
    snap = snapshot(dp)
    f = H.mod(FC).CycleSummaryStats(dp, {"cycle_comp_num": [a, b], "statistics": st})
    r = H.run(f.validate)
    H.ensure("valid run accepted", r.ok and r.value[0] is True, r)
    H.cover("run")
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    H.ensure("one row", len(X) == 1)
    H.ensure("columns named after statistic and quantity", sorted(X.columns) == sorted(s + "_" + q for q in QN for s in st), list(X.columns))
    for q, nm in zip(Q, QN):
        step = "charge" if nm.startswith("charg") else "discharge"
        d = [vals[(b, step, i, q)] - vals[(a, step, i, q)] for i in range(n) if i != hole]
        for s in st:
            H.ensure("%s of the difference of %s" % (s, nm), veq(H, X[s + "_" + nm].iloc[0], statistic(H, s, d)), s)
    H.ensure("run unchanged", unchanged(dp, snap))


# ------------------------------------------------------------------ diagnostics
_PDIR = []


def pdir():
    """a parameter directory: project Prj, sequence numbers 1-3"""
    if not _PDIR:
        import atexit
        import os
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="c17_")
        atexit.register(shutil.rmtree, d, True)
        with open(os.path.join(d, "Prj_parameters.csv"), "w") as f:
            f.write("project_name,seq_num,capacity_nominal,diagnostic_start_cycle,diagnostic_interval,charge_constant_current_1,charge_constant_current_2,charge_cutoff_voltage\n")
            for s, (cap, st, iv, c1, c2, v) in PARAMS.items():
                f.write("Prj,%d,%s,%d,%d,%s,%s,%s\n" % (s, cap, st, iv, c1, c2, v))
        _PDIR.append(d)
    return _PDIR[0]


PARAMS = {1: (2.0, 30, 100, 1.0, 2.0, 3.6), 2: (4.0, 40, 200, 3.0, 1.5, 3.7), 3: (4.84, 50, 300, 2.0, 2.0, 4.2)}
DQ = ["charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "charge_dQdV", "discharge_dQdV"]
DQN = ["charging_capacity", "discharging_capacity", "charging_energy", "discharging_energy", "charging_dQdV", "discharging_dQdV"]
RPT = ["rpt_0.2C", "rpt_1C", "rpt_2C"]


def diag_run(H, n, only, layout, ctype, late=False, hole=None):
    """layout: [(cycle_index, cycle_type)]; every cycle: a charge and a discharge step of n points, symbolic for ctype cycles"""
    cols = {k: [] for k in ["cycle_index", "cycle_type", "step_index", "step_index_counter", "test_time", "current"] + DQ}
    vals = {}
    t = 0.0
    for ci, (c, ty) in enumerate(layout):
        for s, step in enumerate(("charge", "discharge")):
            for i in range(n):
                t += 10.0
                cols["cycle_index"].append(c)
                cols["cycle_type"].append(ty)
                cols["step_index"].append(5 + ci % 2 + 3 * s)      # the step numbers differ between diagnostics
                cols["step_index_counter"].append(2 * ci + s)
                cols["test_time"].append(t)
                cols["current"].append(0.0 if i == n - 1 else 1.0 if step == "charge" else -1.0)     # the current has decayed at the end
                for j, q in enumerate(DQ):
                    v = H.real("v%d%d%d%d" % (ci, s, i, j), 0, 10) if j == only and ty == ctype else 0.1 * i * i + 0.013 * c * (i + 1) + 0.2 * j + 0.3 * s
                    if hole == (c, i):
                        v = float("nan")
                    cols[q].append(v)
                    vals[(c, step, i, q)] = v
    if late:        # a "final" diagnostic appended with a low cycle number
        for i in range(n):
            for k in cols:
                cols[k].append({"cycle_index": layout[0][0], "cycle_type": layout[0][1], "step_index": 5, "step_index_counter": 99, "test_time": 2e6 + i, "current": 1.0}.get(k, 7.7))
    return cols, vals


@harness("C17", "diagnostic_summary_stats", conc=60, targets=[FC, FH], budget=200)
def h_dss(H):
    n = 2
    ctype = H.choice("type", ["rpt_0.2C", "reset"])
    only = H.choice("quantity", list(range(6)))
    p0, p1 = H.choice("positions", [(0, 1), (0, 2), (2, 1)])
    st = H.choice("statistics", [STATS, ["abs", "mean"]])
    layout, k = [], 1
    for _ in range(3):
        for ty in ("reset",) + tuple(RPT):
            layout.append((k, ty))
            k += 1
        k += 20
    late = H.choice("late", [False, True])
    gap = H.choice("gap", [False, True])
    hole = ([c for c, ty in layout if ty == ctype][p1], 0) if gap else None
    cols, vals = diag_run(H, n, only, layout, ctype, late, hole)
    S = {"cycle_index": [c for c, _ in layout], "cycle_type": [ty for _, ty in layout]}
    for j, q in enumerate(Q):
        S[q] = [H.real("s%d_%d" % (j, i), 0.5, 10) if ty == "rpt_1C" and j == only else 1.0 + 0.1 * i + 0.3 * j for i, (_, ty) in enumerate(layout)]
    dp = run_of(H, summary=H.pframe({"cycle_index": [0]}), dsum=H.pframe(S), ddata=H.pframe(cols), protocol="Prj_000001.sdu")
    snap = snapshot(dp)
    hy = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": ctype, "diag_pos_list": [p0, p1], "statistics": st, "parameters_path": pdir()}
    f = H.mod(FC).DiagnosticSummaryStats(dp, hy)
    r = H.run(f.validate)
    H.ensure("valid run accepted", r.ok and r.value[0] is True, r)
    H.cover("run")
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    cyc = [c for c, ty in layout if ty == ctype]
    a, b = cyc[p0], cyc[p1]
    names = [s + "_" + q for q in DQN for s in st] + ["diag_sum_diff_%d_%d_%s%s" % (p0, p1, ty, q) for ty in RPT for q in Q]
    H.ensure("one row, columns named after statistic and quantity", len(X) == 1 and sorted(X.columns) == sorted(names), list(X.columns))
    if sorted(X.columns) != sorted(names):
        return
    for q, nm in zip(DQ, DQN):
        step = "charge" if nm.startswith("charg") else "discharge"
        d = [vals[(b, step, i, q)] - vals[(a, step, i, q)] for i in range(1 if gap else 0, n)]
        for s in st:
            H.ensure("%s of the difference of %s" % (s, nm), veq(H, X[s + "_" + nm].iloc[0], statistic(H, s, d)), s)
    for ty in RPT:
        rows = [i for i, (_, t2) in enumerate(layout) if t2 == ty]
        for q in Q:
            x0, x1 = S[q][rows[p0]], S[q][rows[p1]]
            H.ensure("fractional change of %s of %s" % (q, ty), veq(H, X["diag_sum_diff_%d_%d_%s%s" % (p0, p1, ty, q)].iloc[0], (x1 - x0) / x0))
    H.ensure("run unchanged", unchanged(dp, snap))


@harness("C17", "delta_q_fast_charge", conc=80, targets=[FC], budget=200)
def h_dq(H):
    N = 17
    init, mid, final = H.choice("cycles", [(10, 11, 14), (3, 12, 15), (5, 13, 14)])
    what = H.choice("column", ["discharge_capacity", "dc_internal_resistance", "temperature", "time", "interpolated", "none", "gaps"])
    steps = H.choice("step_type", [True, False]) if what in ("interpolated", "none", "gaps") else True
    nnom = H.choice("nominal", [3, 6]) if what == "discharge_capacity" else 4
    S = {"cycle_index": list(range(N)),
         "discharge_capacity": [1.0 - 0.003 * i * i + 0.01 * (i % 3) for i in range(N)],
         "dc_internal_resistance": [0.02 + 0.0005 * ((5 * i) % 7) for i in range(N)],
         "temperature_maximum": [30.0 + (3 * i) % 5 for i in range(N)],
         "temperature_minimum": [20.0 - (2 * i) % 5 for i in range(N)],
         "time_temperature_integrated": [10.0 + (4 * i) % 9 for i in range(N)],
         "charge_duration": [100.0 + (4 * i) % 11 for i in range(N)]}
    if what in ("discharge_capacity", "dc_internal_resistance"):
        for i in ([0, 1, final - 1] if what == "discharge_capacity" else [1, final - 1, final]):
            S[what][i] = H.real("x%d" % i, 0.25, 4)
    if what == "temperature":
        for c in ("temperature_maximum", "temperature_minimum"):
            for i in (1, final - 1, final):
                S[c][i] = H.real("%s%d" % (c[12:], i), -50, 100)
    if what == "time":
        for c, lo in (("time_temperature_integrated", 0), ("charge_duration", 1)):
            for i in range(N):
                S[c][i] = H.real("%s%d" % (c[:2], i), lo, 1000)
    nan = float("nan")
    if what == "gaps":       # unmeasured resistances are recorded as 0 or missing
        S["dc_internal_resistance"][3], S["dc_internal_resistance"][4] = 0.0, nan
        S["dc_internal_resistance"][5] = H.real("x5", 0.01, 4)
        S["time_temperature_integrated"][2] = S["charge_duration"][3] = nan
    npt = 3
    missing = what == "none" and H.choice("missing", [False, True])
    cols = {"cycle_index": [], "discharge_capacity": [], "step_type": []}
    qd = {}
    for c in sorted({0, 5, 9, init - 1, final - 1, N - 1}):
        for s in (("charge", "discharge") if steps else ("discharge",)):
            if missing and s == "discharge" and c in (init - 1, final - 1):
                continue
            for i in range(npt):
                v = H.real("q%d_%s%d" % (c, s[0], i), 0, 4) if what == "interpolated" and c in (init - 1, final - 1) else 0.5 * i + 0.07 * c * (i * i + 1)
                if what == "gaps" and c == init - 1 and i == 1:
                    v = nan
                cols["cycle_index"].append(c)
                cols["discharge_capacity"].append(v)
                cols["step_type"].append(s)
                qd[(c, s, i)] = v
    if not steps:
        del cols["step_type"]
    dp = run_of(H, summary=H.pframe(S), data=H.pframe(cols))
    snap = snapshot(dp)
    hy = {"init_pred_cycle": init, "mid_pred_cycle": mid, "final_pred_cycle": final, "n_nominal_cycles": nnom}
    f = H.mod(FC).DeltaQFastCharge(dp, dict(hy))
    r = H.run(f.validate)
    H.ensure("valid run accepted", r.ok and r.value[0] is True, r)
    H.cover("run")
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    Q_, R, TM, Tm, TT, CD = (S[c] for c in ("discharge_capacity", "dc_internal_resistance", "temperature_maximum", "temperature_minimum", "time_temperature_integrated", "charge_duration"))
    k = final - 1
    TT, CD, RR = [v for v in TT[:k + 1] if v == v], [v for v in CD[1:6] if v == v], [v for v in R[1:k + 1] if not (isinstance(v, float) and (v != v or v == 0))]
    sl, ic = H.stat("line", list(range(1, k + 1)), Q_[1:k + 1])
    sl2, ic2 = H.stat("line", list(range(mid - 1, k + 1)), Q_[mid - 1:k + 1])
    want = {
        "discharge_capacity_cycle_2": Q_[1],
        "max_discharge_capacity_difference": H.stat("max", Q_[:k + 1]) - Q_[1],
        "discharge_capacity_cycle_100": Q_[k],
        "integrated_time_temperature_cycles_1:100": H.stat("sum", TT),
        "charge_time_cycles_1:5": H.stat("mean", CD),
        "max_temperature_cycles_1:100": H.stat("max", TM[1:k + 1]),
        "min_temperature_cycles_1:100": H.stat("min", Tm[1:k + 1]),
        "slope_discharge_capacity_cycle_number_2:100": sl, "intercept_discharge_capacity_cycle_number_2:100": ic,
        "slope_discharge_capacity_cycle_number_91:100": sl2, "intercept_discharge_capacity_cycle_number_91:100": ic2,
        "min_internal_resistance_cycles_2:100": H.stat("min", RR),
        "internal_resistance_cycle_2": R[1],
        "internal_resistance_difference_cycles_2:100": R[k] - R[1],
        "nominal_capacity_by_median": H.stat("median", Q_[:nnom]),
    }
    d = [] if missing else [qd[(k, "discharge", i)] - qd[(init - 1, "discharge", i)] for i in range(npt)]
    first = d[0] if d else nan
    d = [v for v in d if isinstance(v, Sym) or v == v]
    ext = "_discharge_capacity_difference_cycles_2:100"
    for nm in ("min", "mean", "variance", "skew", "kurtosis", "first"):
        if missing:
            want["abs_" + nm + ext] = float("nan")
        elif nm == "kurtosis":
            want["abs_" + nm + ext] = logabs(H, H.stat("kurtosis", d, True, True))
        else:
            want["abs_" + nm + ext] = logabs(H, first if nm == "first" else H.stat({"variance": "var"}.get(nm, nm), d))
    H.ensure("one row with the documented features", len(X) == 1 and sorted(X.columns) == sorted(want), sorted(set(X.columns) ^ set(want)))
    if sorted(X.columns) != sorted(want):
        return
    for c, v in want.items():
        if what == "gaps" and ("skew" in c or "kurtosis" in c):
            continue
        H.ensure(c, veq(H, X[c].iloc[0], v), (c, v))
    H.ensure("run unchanged", unchanged(dp, snap))
    H.ensure("hyperparameters unchanged", f.hyperparameters == hy)


@harness("C17", "refusals", conc=60, targets=[FC, FH])
def h_refuse(H):
    """validate() accepts exactly the runs that have the data a featurizer needs"""
    m = H.mod(FC)
    top, low = H.int("top", 0, 300), H.int("low", 0, 50)
    H.assume(low <= top)
    init, mid, final = H.int("init", 1, 50), H.int("mid", 1, 300), H.int("final", 1, 300)
    H.cover("run")
    S = H.pframe({"cycle_index": [0, 1]}, index=[low, top] if not H.sym else None)
    if H.sym:
        import pandas as pd

        class Ix:
            __vc_symbolic__ = True

            def max(self):
                return top

            def min(self):
                return low

        class Sm:
            __vc_symbolic__ = True
            index = Ix()
            columns = ["cycle_index"]
        S = Sm()
    dp = run_of(H, summary=S, data=H.pframe({"cycle_index": [0]}))
    f = m.DeltaQFastCharge(dp, {"init_pred_cycle": init, "mid_pred_cycle": mid, "final_pred_cycle": final, "n_nominal_cycles": 4})
    r = H.run(f.validate)
    H.ensure("no error", r.ok, r)
    if r.ok:
        good = and_(top > final, low <= init, mid > 10, final > mid)
        H.ensure("DeltaQFastCharge accepts exactly covered cycle ranges", H.eq(r.value[0], good) if not isinstance(r.value[0], bool) else (good if r.value[0] else not_(good)), r.value)
        H.ensure("a refusal says why", (r.value[1] is None) == bool(r.value[0]))


@harness("C17", "diagnostic_refusals", conc=30, targets=[FC, FH])
def h_refuse2(H):
    m = H.mod(FC)
    kind = H.choice("kind", ["none", "empty", "few", "enough"])
    pos = H.choice("pos", [[0, 1], [2, 0], [1, 1]])
    n = {"none": 0, "empty": 0, "few": max(pos), "enough": max(pos) + 1}[kind]
    H.cover(kind)
    ds = None if kind == "none" else H.pframe({"cycle_index": [10 * i for i in range(n)] + [5] * (n > 0), "cycle_type": ["rpt_0.2C"] * n + ["reset"] * (n > 0)})
    dp = run_of(H, summary=H.pframe({"cycle_index": [0]}), data=H.pframe({"cycle_index": [10, 100], "charge_capacity": [0., 0], "discharge_capacity": [0., 0], "charge_energy": [0., 0], "discharge_energy": [0., 0]}), dsum=ds)
    f = m.DiagnosticSummaryStats(dp, dict(m.DiagnosticSummaryStats.DEFAULT_HYPERPARAMETERS, diag_pos_list=pos))
    r = H.run(f.validate)
    H.ensure("diagnostic statistics need enough diagnostics of the type", r.ok and bool(r.value[0]) == (kind == "enough") and (r.value[1] is None) == (kind == "enough"), r)
    for c in (m.DiagnosticProperties, m.RawInterpolatedData, m.ExclusionCriteria, m.ChargingProtocol):
        r = H.run(c(dp).validate)
        H.ensure("diagnostic features need a diagnostic summary", r.ok and bool(r.value[0]) == (ds is not None and len(ds) > 0), (c, r))
    a, b = H.choice("cycles", [(10, 100), (10, 11), (3, 100), (100, 10)])
    r = H.run(m.CycleSummaryStats(dp, {"cycle_comp_num": [a, b], "statistics": ["mean"]}).validate)
    H.ensure("cycle statistics need both cycles", r.ok and bool(r.value[0]) == (a in (10, 100) and b in (10, 100)), r)
    r = H.run(m.CycleSummaryStats(dp, {"cycle_comp_num": [a, b], "statistics": ["mean", "median"]}).get_summary_statistics, [1.0, 2.0])
    H.ensure("unknown statistics refused", (not r.ok) and isinstance(r.exc, ValueError), r)


def life_run(H, lead, blocks, seq, sym, drop_last=0, fmt=None, resist=False):
    """a run with diagnostic blocks (reset, rpt_0.2C, rpt_1C) before, between and after `blocks` regular cycles each.
    sym: column -> number of leading symbolic values."""
    kinds = ["reset", "rpt_0.2C", "rpt_1C"]
    reg, dia, k = [], [], lead
    if lead:
        reg.append(0)
    for n in blocks + [None]:
        for t in kinds:
            dia.append((k, t))
            k += 1
        for _ in range(n or 0):
            reg.append(k)
            k += 1
    if drop_last:
        reg = reg[:-drop_last]
    S = {"cycle_index": reg}
    D = {"cycle_index": [c for c, _ in dia], "cycle_type": [t for _, t in dia],
         "date_time_iso": ["2020-01-%02dT00:00:%02d%s+00:00" % (1 + i, i, ".500000" if fmt and i % 2 else "") for i in range(len(dia))]}
    for q in Q:
        S[q] = [H.real("r_%s%d" % (q, i), 0.25, 8) if i < sym.get(q, 0) else 1.0 + 0.01 * ((3 * i) % 7) for i in range(len(reg))]
        D[q] = [H.real("d_%s%d" % (q, i), 0.25, 8) if i < sym.get(q, 0) else 2.0 - 0.1 * i for i in range(len(dia))]
    return S, D


@harness("C17", "fractional_quantities", conc=60, targets=[FH], budget=200)
def h_frac(H):
    lead = H.choice("lead", [0, 1])
    blocks = H.choice("blocks", [[2, 2], [1, 3], [2, 1, 2]])
    metric = H.choice("metric", ["discharge_capacity", "discharge_energy", "charge_energy", "charge_capacity"])
    norm = "discharge_energy" if "energy" in metric else "discharge_capacity"
    ty = H.choice("type", ["rpt_0.2C", "reset", "rpt_1C"])
    seq = H.choice("seq", [1, 2])
    S, D = life_run(H, lead, blocks, seq, {metric: 40, norm: 40}, fmt=True)
    dp = run_of(H, summary=H.pframe(S), dsum=H.pframe(D), protocol=H.choice("protocol", ["Prj_00000%d.sdu", "some\\dir\\Prj_00000%d_x.000"]) % seq)
    snap = snapshot(dp)
    H.cover("run")
    r = H.run(H.mod(FH).get_fractional_quantity_remaining_nx, dp, metric, ty, parameters_path=pdir())
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = r.value
    reg = [(c, S[norm][i]) for i, c in enumerate(S["cycle_index"]) if c != 0 and c not in D["cycle_index"]]
    top = max(c for c, _ in reg)
    rows = [i for i in range(len(D["cycle_index"])) if D["cycle_type"][i] == ty and D["cycle_index"][i] <= top]
    first = reg[0][0]
    initial = [v for j, (c, v) in enumerate(reg) if c == first + j]      # the regular cycles before the second diagnostic
    x = H.stat("sum", initial)
    H.ensure("one row per diagnostic of the type followed by a regular cycle", list(X["cycle_index"]) == [D["cycle_index"][i] for i in rows], list(X["cycle_index"]))
    if len(X) != len(rows):
        return
    for j, i in enumerate(rows):
        c = D["cycle_index"][i]
        row = X.iloc[j]
        H.ensure("fraction of the first diagnostic", veq(H, row["fractional_metric"], D[metric][i] / D[metric][0]))
        H.ensure("initial throughput", veq(H, row["initial_regular_throughput"], x))
        H.ensure("normalized regular throughput", veq(H, row["normalized_regular_throughput"] * x, H.stat("sum", [v for cc, v in reg if cc < c] or [0])), c)
        H.ensure("normalized diagnostic throughput", veq(H, row["normalized_diagnostic_throughput"] * x, H.stat("sum", [D[norm][m] for m in range(len(D[norm])) if D["cycle_index"][m] < c] or [0])), c)
        H.ensure("protocol parameters", row["diagnostic_start_cycle"] == PARAMS[seq][1] and row["diagnostic_interval"] == PARAMS[seq][2])
        H.ensure("time of the diagnostic", row["epoch_time"] == 1577836800 + 86400 * i + i, (row["epoch_time"], i))
    H.ensure("run unchanged", unchanged(dp, snap))
    D2 = dict(D, cycle_index=[c + 95 for c in D["cycle_index"]])
    dp.diagnostic_summary = H.pframe(D2)
    r = H.run(H.mod(FH).get_fractional_quantity_remaining, dp, metric, ty)
    H.ensure("plain: no error", r.ok, r)
    if r.ok:
        rows = [i for i in range(len(D2["cycle_index"])) if D2["cycle_type"][i] == ty and D2["cycle_index"][i] > 100]
        H.ensure("plain: diagnostics after cycle 100", list(r.value["cycle_index"]) == [D2["cycle_index"][i] for i in rows])
        for j, i in enumerate(rows[:len(r.value)]):
            H.ensure("plain: fraction of the first diagnostic", veq(H, r.value["fractional_metric"].iloc[j], D2[metric][i] / D2[metric][0]))


# ------------------------------------------------------------------ hybrid pulse power characterisation
SEQ0 = {"charge": 7, "long": 9, "dpulse": 11, "short": 12, "cpulse": 13, "next": 14, "final": 16}     # step numbers of the first HPPC
SEQ1 = {"charge": 31, "long": 32, "dpulse": 35, "short": 36, "cpulse": 38, "next": 39, "final": 41}   # ... and of the later ones


def hppc_cycle(cols, ci, steps, t0, socs, val, falling=False):
    """one HPPC cycle appended to cols; val(kind, soc, i, n, t) -> (voltage, current, capacity)
    falling: the rows of discharge and rest steps come in order of rising voltage, i.e. latest first"""
    t, ctr = t0, 1000 * ci
    log = {}

    def step(kind, soc, times):
        nonlocal t, ctr
        log[(kind, soc)] = []
        rows = []
        for i, x in enumerate(times):
            v, a, q = val(kind, soc, i, len(times), x)
            log[(kind, soc)].append((t + x, v, a, q))
            rows.append(log[(kind, soc)][-1])
        for tt, v, a, q in (rows[::-1] if falling and kind not in ("charge", "cpulse") else rows):
            for k, c in (("cycle_index", ci), ("cycle_type", "hppc"), ("step_index", steps[kind]), ("step_index_counter", ctr), ("test_time", tt), ("voltage", v), ("current", a), ("discharge_capacity", q)):
                cols[k].append(c)
        t += times[-1] + 1.0
        ctr += 1
    step("charge", 0, [0.0, 500.0, 1000.0])
    for s in range(socs):
        step("long", s, [30.0 * i * 4 for i in range(12)])
        step("dpulse", s, [0.0, 1.0, 2.5, 20.0])
        step("short", s, [0.0, 5.0, 10.0, 20.0, 30.0, 40.0])
        step("cpulse", s, [0.0, 0.5, 4.0, 20.0])
        step("next", s, [0.0, 200.0, 300.0, 500.0, 800.0, 1000.0])
    step("final", 0, [0.0, 50.0, 100.0, 400.0])
    return t, log


def hppc_val(scale, over=None):
    def val(kind, soc, i, n, t):
        v = 4.0 - 0.2 * soc - 0.01 * scale * (1 + 0.1 * soc * soc)
        a, q = 0.0, 0.4 * soc + 0.01 * scale
        if kind == "charge":
            v, a = 3.5, 2.0
        elif kind == "dpulse":
            v, a = v - 0.05 * scale - 0.001 * i * (1 + soc), -3.0
        elif kind == "cpulse":
            v, a = v + 0.04 * scale + 0.002 * i * (1 + soc), 2.5 + 0.1 * scale
        elif kind == "short":
            td = 20.0
            v = v - 0.02 * scale * (1 + 0.1 * soc) * (math.sqrt(t + td) - math.sqrt(t))
        elif kind == "next":
            q = q + 0.4 * t / 1000.0
            v, a = v - 0.3 * (q - 0.4 * soc) + 0.02 * scale * (1 + t / 1000.0), -1.6
        elif kind == "final":
            v, a = 3.0, -1.5
        if over:
            r = over(kind, soc, i, n)
            v, a = (v if r[0] is None else r[0]), (a if r[1] is None else r[1])
        return v, a, q
    return val


def new_cols():
    return {k: [] for k in ("cycle_index", "cycle_type", "step_index", "step_index_counter", "test_time", "voltage", "current", "discharge_capacity")}


def resist(H, log, soc, name):
    """(v_pulse - v_rest) / (i_pulse - i_rest) of the SOC window"""
    rest, pulse = (("short", "cpulse") if name[2] == "c" else ("long", "dpulse"))
    rest, pulse = log[(rest, soc)], log[(pulse, soc)]
    v0, i0 = rest[-1][1], H.stat("mean", [r[2] for r in rest[-5:]])
    lim = {"0": 0.001, "3": 3.0, "e": 1e9}[name[4]]
    p = [r for r in pulse if r[0] - pulse[0][0] <= lim][-1]
    return (p[1] - v0) / (p[2] - i0)


RN = ["r_c_0s", "r_c_3s", "r_c_end", "r_d_0s", "r_d_3s", "r_d_end"]


@harness("C17", "hppc_resistance", conc=30, targets=[FH], budget=250)
def h_res(H):
    soc = H.choice("soc", [0, 1, 2])
    name = H.choice("r", RN)
    pos = H.choice("pos", [1, 2])
    falling = H.choice("order", [False, True])
    rest, pulse = (("short", "cpulse") if name[2] == "c" else ("long", "dpulse"))
    cols, logs, t = new_cols(), [], 0.0
    for k, ci in enumerate((3, 40, 70)):
        def over(kind, s, i, n, k=k):
            if s != soc or k not in (0, pos):
                return None, None
            if kind == rest and i >= n - 6:
                return (H.real("v%d%s%d" % (k, kind, i), 2, 5), H.real("i%d%s%d" % (k, kind, i), -0.0078125, 0.0078125))
            if kind == pulse:
                lo, hi = (0.5, 5) if kind == "cpulse" else (-5, -0.5)
                return (H.real("v%d%s%d" % (k, kind, i), 2, 5), H.real("i%d%s%d" % (k, kind, i), lo, hi))
            return None, None
        t, log = hppc_cycle(cols, ci, SEQ1 if k else SEQ0, t, 3, hppc_val(1.0 + 0.3 * k, over), falling)
        logs.append(log)
    dp = run_of(H, summary=H.pframe({"cycle_index": [0]}), dsum=H.pframe({"cycle_index": [3, 40, 70], "cycle_type": ["hppc"] * 3}), ddata=H.pframe(cols), protocol="Prj_000001.sdu")
    m = H.mod(FH)
    H.cover("run")
    for k in (0, pos):
        r = H.run(m.get_resistance_soc_duration_hppc, dp, k)
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        H.ensure("one value per resistance and SOC window", len(r.value) == 1 and list(r.value.columns) == ["%s_%d" % (x, j) for x in RN for j in range(9)], list(r.value.columns))
        H.ensure("resistance of the pulse", veq(H, r.value["%s_%d" % (name, soc)].iloc[0], resist(H, logs[k], soc, name)), (k, name, soc))
        for x in RN:
            for s in range(3):
                if (x[2], s) != (name[2], soc):
                    H.ensure("resistances of the other pulses", veq(H, r.value["%s_%d" % (x, s)].iloc[0], resist(H, logs[k], s, x)), (k, x, s))
        H.ensure("no resistance for skipped SOC windows", all(r.value["%s_%d" % (x, s)].iloc[0] is None for x in RN for s in range(3, 9)))


@harness("C17", "hppc_features", conc=12, proof=False, targets=[FC, FH])
def h_hppc(H):
    """the whole HPPC featurizer on generated HPPC cycles (bounded)"""
    import numpy as np
    from scipy.stats import skew, kurtosis
    pos = H.choice("pos", [1, 2, 0])
    win = H.choice("window", [8, 3, 0])
    late = H.choice("late", [False, True])
    cols, logs, t = new_cols(), [], 0.0
    sc = [1.0] + [1.2 + 0.4 * H.real("s%d" % i, 0, 1) for i in (1, 2)]
    for k, ci in enumerate((3, 40, 70)):
        same = H.choice("renumbered%d" % k, [False, True]) if k else False
        st = SEQ1 if k != 1 or same else SEQ0
        t, log = hppc_cycle(cols, ci, SEQ0 if k == 0 else st, t, 10, hppc_val(sc[k]))
        logs.append(log)
    if late:                 # a "final" diagnostic with a low cycle number, and a step with no times
        hppc_cycle(cols, 2, SEQ1, 2e6, 10, hppc_val(3.0))
    dp = run_of(H, summary=H.pframe({"cycle_index": [0]}), dsum=H.pframe({"cycle_index": [3, 40, 70], "cycle_type": ["hppc"] * 3}), ddata=H.pframe(cols), protocol=H.choice("protocol", ["Prj_000001.sdu", "a\\b\\Prj_000001_x.000"]))
    snap = snapshot(dp)
    hy = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diag_pos": pos, "soc_window": win, "parameters_path": pdir()}
    f = H.mod(FC).HPPCResistanceVoltageFeatures(dp, hy)
    r = H.run(f.validate)
    H.ensure("valid run accepted", r.ok and r.value[0] is True, r)
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    H.ensure("one row", len(X) == 1)
    a, b = logs[0], logs[pos]
    want = {}
    for x in RN:
        for s in range(9):
            r0, r1 = resist(H, a, s, x), resist(H, b, s, x)
            want["%s_%d0" % (x, s)] = (r1 - r0) / r0

    def group(d, ext):
        for nm, v in (("var", np.var(d)), ("min", min(d)), ("mean", np.mean(d)), ("skew", skew(d)), ("kurtosis", kurtosis(d, fisher=False, bias=False)), ("sum", np.sum(np.abs(d))), ("sum_square", np.sum(np.square(d)))):
            want[nm + ext] = v
    group([a[("long", s)][-1][1] - b[("long", s)][-1][1] for s in range(9)], "_ocv")
    q0 = [r[3] for r in a[("next", win)]]
    pts = [r for r in b[("next", win)] if min(q0) < r[3] < max(q0)]
    v0 = {}
    lin = np.polyfit(q0, [r[1] for r in a[("next", win)]], 1)
    group([np.polyval(lin, r[3]) - r[1] for r in pts], "_v_diff")
    for s in range(1, 9):
        k0, k1 = (-0.02 * c * (1 + 0.1 * s) for c in (sc[0], sc[pos]))
        want["D_%d" % s] = (k1 - k0) / k0
    H.ensure("columns", sorted(X.columns) == sorted(want), sorted(set(X.columns) ^ set(want)))
    for c, v in want.items():
        if c not in X.columns:
            continue
        g = float(X[c].iloc[0])
        if pos == 0:         # the first cycle against itself: differences vanish, higher moments are round-off
            if not c.startswith(("skew", "kurt")):
                H.ensure("%s against itself" % c.split("_")[0], abs(g) < 1e-6, (c, g))
        else:
            H.ensure(c.rstrip("0123456789") if c[0] in "rD" else c, math.isclose(g, v, rel_tol=1e-4, abs_tol=1e-7), (c, g, v))
    H.ensure("run unchanged", unchanged(dp, snap))


# ------------------------------------------------------------------ thresholds, exclusion, images, protocol, trajectories
@harness("C17", "thresholds", conc=120, proof=False, targets=[FC, FH])
def h_thr(H):
    n = H.choice("diagnostics", [3, 4, 6])
    ty = H.choice("type", ["rpt_1C", "rpt_0.2C", "reset"])
    metric = H.choice("metric", ["discharge_energy", "discharge_capacity"])
    thr = H.choice("threshold", [0.8, 0.9, 0.75])
    ext = H.choice("extrapolate", [True, False])
    axes = H.choice("axes", [["normalized_regular_throughput", "cycle_index"], ["cycle_index"], ["epoch_time", "cycle_index"], ["normalized_diagnostic_throughput", "normalized_regular_throughput"]])
    slow = H.choice("slow", [False, True])
    S, D = life_run(H, 1, [H.choice("b%d" % i, [2, 3, 5]) for i in range(n)], 1, {}, fmt=H.choice("fmt", [True, False]))
    for q in Q:
        f = 1.0
        for i in range(len(D["cycle_index"])):
            if i % 3 == 0:
                f -= (0.1 if slow else 1.0) * H.real("d%s%d" % (q[:-2], i), 0.03125, 0.140625)
            D[q][i] = 3.0 * f * (1.0 if i % 3 == 0 else 0.97 if i % 3 == 1 else 0.93) - (0.001 if "energy" in q else 0)
    dp = run_of(H, summary=H.pframe(S), dsum=H.pframe(D), ddata=H.pframe({"cycle_index": [0]}), protocol="Prj_000001.sdu")
    snap = snapshot(dp)
    hy = {"parameters_dir": pdir(), "quantities": H.choice("quantities", [["discharge_energy", "discharge_capacity"], ["discharge_capacity", "charge_energy", "discharge_energy"]]), "threshold": thr, "metric": metric, "filter_kinks": None,
          "interpolation_axes": list(axes), "cycle_type": ty, "extrapolate_threshold": ext}
    ax0 = list(axes)
    f = H.mod(FC).DiagnosticProperties(dp, hy)
    r = H.run(f.create_features)
    off = {"reset": 0, "rpt_0.2C": 1, "rpt_1C": 2}[ty]
    reg = [(c, S["discharge_energy" if "energy" in metric else "discharge_capacity"][i]) for i, c in enumerate(S["cycle_index"]) if c != 0]
    norm = "discharge_energy" if "energy" in metric else "discharge_capacity"
    top = max(c for c, _ in reg)
    rows = [i for i in range(off, len(D["cycle_index"]), 3) if D["cycle_index"][i] <= top]
    y = [D[metric][i] / D[metric][0] for i in rows]
    first = reg[0][0]
    x0 = sum(v for j, (c, v) in enumerate(reg) if c == first + j)
    X = {"cycle_index": [D["cycle_index"][i] for i in rows],
         "epoch_time": [1577836800 + 86400 * i + i for i in rows],
         "normalized_regular_throughput": [sum(v for c, v in reg if c < D["cycle_index"][i]) / x0 for i in rows],
         "normalized_diagnostic_throughput": [sum(D[norm][:i]) / x0 for i in rows]}
    if min(y) > thr and not ext:
        H.cover("not reached")
        H.ensure("a threshold that is not reached is refused", (not r.ok) and type(r.exc).__name__ == "BEEPFeaturizationError", r)
        return
    if y[0] <= thr:
        H.cover("below from the start")
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.cover("extrapolated" if min(y) > thr else "crossed")
    names = ax0 + (["real_regular_throughput"] if "normalized_regular_throughput" in ax0 else [])
    Y = f.features
    H.ensure("columns", sorted(Y.columns) == sorted(["initial_regular_throughput"] + [ty + metric + str(thr) + "_" + a for a in names]) and len(Y) == 1, list(Y.columns))
    if len(Y.columns) != len(names) + 1:
        return
    H.ensure("initial throughput", veq(H, Y["initial_regular_throughput"].iloc[0], x0))
    for a in ax0:
        xs = X[a]
        if min(y) > thr:
            sl = (y[-1] - y[-2]) / (xs[-1] - xs[-2])
            cross = xs[-1] + (thr - y[-1]) / sl
            grid = (xs[-2] + (thr - 0.1 - y[-2]) / sl - min(xs)) / 999
        else:
            k = next(i for i in range(1, len(y)) if y[i] <= thr)
            cross = xs[k - 1] + (thr - y[k - 1]) / (y[k] - y[k - 1]) * (xs[k] - xs[k - 1])
            grid = (max(xs) - min(xs)) / 999
        g = Y[ty + metric + str(thr) + "_" + a].iloc[0]
        H.ensure("threshold crossing within the resolution of the grid", abs(g - cross) <= 1.001 * grid + 1e-9, (a, g, cross, grid))
        if a == "normalized_regular_throughput":
            H.ensure("real throughput", veq(H, Y[ty + metric + str(thr) + "_real_regular_throughput"].iloc[0], g * x0))
    H.ensure("run unchanged", unchanged(dp, snap))
    H.ensure("hyperparameters unchanged", hy["interpolation_axes"] == ax0)


@harness("C17", "exclusion", conc=120, proof=False, targets=[FC, FH])
def h_excl(H):
    seq = H.choice("seq", [1, 2, 3])
    ty = H.choice("type", ["rpt_0.2C", "reset"])
    q = H.choice("quantity", ["discharge_capacity", "discharge_energy"])
    thr = H.choice("threshold", [0.8, 0.9])
    n = H.choice("n", [3, 5])
    S, D = life_run(H, 1, [4, 3, 3], seq, {})
    N = len(S["cycle_index"])
    S["charge_throughput"] = []
    tot = 0.0
    for i in range(N):
        tot += H.real("t%d" % i, 0, 10)
        S["charge_throughput"].append(tot)
    for i in range(len(D["cycle_index"])):
        D[q][i] = 2.0 * (1.0 - i * H.choice("decay", [0.005, 0.03, 0.06]))
    cut1, cut2 = H.choice("cut1", [15, 25]), H.choice("cut2", [8, 12])
    early = {c: H.choice("early%d" % i, [False, False, True]) for i, c in enumerate(S["cycle_index"])}
    dc = {k: [] for k in ("cycle_index", "step_type", "test_time", "voltage", "current")}
    t = 0.0
    for c in S["cycle_index"]:
        k = 10 if early[c] else 60      # the constant-voltage phase begins after k% of the cycle
        for i in range(100):
            for key, v in (("cycle_index", c), ("step_type", "charge" if i < 80 else "discharge"), ("test_time", t), ("voltage", 3.0 + 0.01 * min(i, k)), ("current", 2.0 if i <= k else 2.0 * 0.95 ** (i - k))):
                dc[key].append(v)
            t += 10.0
    nominal = H.choice("nominal", [None, 1.5])
    dp = run_of(H, summary=H.pframe(S), data=H.pframe(dc), dsum=H.pframe(D), ddata=H.pframe({"cycle_index": [0]}), protocol="Prj_00000%d.sdu" % seq, params={} if nominal is None else {"nominal_capacity": nominal})
    snap = snapshot(dp)
    hy = {"parameters_dir": pdir(), "EOL_conditions": {"cycle_type": ty, "threshold": thr, "quantity": q}, "throughput_first_n_cycles": {"n": n, "cutoff": cut1}, "equivalent_full_cycles_cutoff": cut2, "early_CV_cutoff": 0.3}
    f = H.mod(FC).ExclusionCriteria(dp, hy)
    r = H.run(f.validate)
    H.ensure("valid run accepted", r.ok and r.value[0] is True, r)
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    top = max(S["cycle_index"])
    rows = [i for i in range({"reset": 0, "rpt_0.2C": 1}[ty], len(D["cycle_index"]), 3) if D["cycle_index"][i] <= top]
    fr = [D[q][i] / D[q][0] for i in rows]
    reached = fr[-1] < thr
    H.cover("end of life" if reached else "not degraded")
    cut = D["cycle_index"][next(i for i, y in zip(rows, fr) if y < thr)] if reached else D["cycle_index"][rows[-1]]
    last = [i for i, c in enumerate(S["cycle_index"]) if c <= cut][-1]
    efc = S["charge_throughput"][last] / (nominal or PARAMS[seq][0])
    want = {"first_n_cycles_throughput": S["charge_throughput"][n], "is_above_first_n_cycles_throughput": S["charge_throughput"][n] > cut1,
            "fractional_capacity_at_EOT": fr[-1], "is_below_fractional_capacity_at_EOT": reached,
            "equivalent_full_cycles_at_EOL": efc, "is_above_equivalent_full_cycles_at_EOL": efc > cut2,
            "is_not_early_CV": PARAMS[seq][3] <= PARAMS[seq][4] or not any(early[c] for c in S["cycle_index"] if c <= cut)}
    want["to_include"] = all(v for k, v in want.items() if k.startswith("is_"))
    H.ensure("columns", len(X) == 1 and sorted(X.columns) == sorted(want), list(X.columns))
    for c, v in want.items():
        if c in X.columns:
            g = X[c].iloc[0]
            H.ensure(c, bool(g) == v if isinstance(v, bool) else veq(H, g, v), (c, g, v))
    H.ensure("run unchanged", unchanged(dp, snap))


@harness("C17", "images", conc=60, proof=False, targets=[FC])
def h_img(H):
    """RawInterpolatedData: one list per diagnostic position, cycle type, metric and step"""
    nan = float("nan")
    n = 4
    types = ["rpt_0.2C", "rpt_1C", "rpt_2C"]
    layout = [(1 + 30 * k + j, ty) for k in range(3) for j, ty in enumerate(["reset"] + types)]
    cols = {k: [] for k in ("cycle_index", "cycle_type", "step_index", "test_time", "voltage") + tuple(DQ)}
    vals, t = {}, 0.0
    for c, ty in layout:
        for s in range(2):
            for i in range(n):
                t += 10
                hole = H.choice("hole", [False, False, False, True])
                row = {"cycle_index": c, "cycle_type": ty, "step_index": 5 + s + 10 * (c > 20), "test_time": nan if hole else t, "voltage": 3.0 + 0.1 * i}
                for q in DQ:
                    row[q] = nan if hole else H.real("v", 0, 10)
                vals[(c, s, i)] = row
                for k in cols:
                    cols[k].append(row[k])
    dp = run_of(H, summary=H.pframe({"cycle_index": [0]}), dsum=H.pframe({"cycle_index": [c for c, _ in layout], "cycle_type": [ty for _, ty in layout]}), ddata=H.pframe(cols), protocol="Prj_000001.sdu")
    snap = snapshot(dp)
    mets = H.choice("metrics", [["capacity", "dQdV", "test_time"], ["energy", "voltage"], ["test_time", "capacity"]])
    tys = H.choice("types", [types, ["rpt_2C", "rpt_0.2C"], ["reset"]])
    pos = H.choice("pos", [[0, 1], [2], [1, 0, 2]])
    imp = H.choice("impute", [True, False])
    f = H.mod(FC).RawInterpolatedData(dp, {"metrics": mets, "cycle_types": tys, "diag_positions": pos, "impute": imp})
    r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    X = f.features
    names = ["diag_cycle_%d_%s_%s_step_%d" % (p, ty, m, s) for ty in tys for m in mets for s in range(2) for p in pos]
    H.ensure("one column per channel", len(X) == 1 and list(X.columns) == names, list(X.columns))
    if list(X.columns) != names:
        return

    def fill(xs):
        ys = list(xs)
        for i in range(1, n):
            if ys[i] != ys[i]:
                ys[i] = ys[i - 1]
        for i in range(n - 2, -1, -1):
            if ys[i] != ys[i]:
                ys[i] = ys[i + 1]
        return ys
    for ty in tys:
        cyc = [c for c, t2 in layout if t2 == ty]
        for m in mets:
            for s in range(2):
                for p in pos:
                    rows = [vals[(cyc[p], s, i)] for i in range(n)]
                    if m in ("capacity", "energy"):
                        ch = [x["charge_" + m] for x in rows]
                        mx = max([v for v in ch if v == v], default=nan)
                        w = [min(v, mx - x["discharge_" + m]) if v == v else nan for v, x in zip(ch, rows)]
                        w = fill(w) if imp else w
                    elif m == "test_time":
                        t0 = min([x["test_time"] for x in rows if x["test_time"] == x["test_time"]], default=nan)
                        w = [x["test_time"] - t0 for x in rows]
                    elif m == "dQdV":
                        w = [x["charge_dQdV"] + x["discharge_dQdV"] for x in rows]
                    else:
                        w = [x[m] for x in rows]
                    if imp and m in ("test_time", "dQdV"):
                        w = [0.0 if v != v else v for v in w]
                    g = X["diag_cycle_%d_%s_%s_step_%d" % (p, ty, m, s)].iloc[0]
                    H.ensure("channel values", len(g) == n and all(veq(H, a, b) for a, b in zip(g, w)), (m, s, p, g, w))
    H.ensure("run unchanged", unchanged(dp, snap))


@harness("C17", "protocol_and_trajectory", conc=80, proof=False, targets=[FC])
def h_prot(H):
    m = H.mod(FC)
    seq = H.choice("seq", [1, 2, 3, 9])
    quant = H.choice("quantities", [["charge_constant_current_1", "charge_cutoff_voltage"], ["charge_cutoff_voltage"], ["capacity_nominal", "charge_constant_current_2"]])
    cap = [1.0 - H.real("c%d" % i, 0, 0.3125) for i in range(H.choice("n", [4, 45]))]
    for i in range(1, len(cap)):
        cap[i] = min(cap[i], cap[i - 1] + 0.01)
    dp = run_of(H, summary=H.pframe({"cycle_index": list(range(len(cap))), "discharge_capacity": cap}), dsum=H.pframe({"cycle_index": [0], "cycle_type": ["reset"]}), ddata=H.pframe({"cycle_index": [0]}), protocol="Prj_%06d.sdu" % seq)
    where = H.choice("path", ["raw", "structured"])
    dp.paths = {where: "/none/Prj_%06d_0001.071" % seq}
    f = m.ChargingProtocol(dp, {"parameters_dir": pdir(), "quantities": quant})
    r = H.run(f.validate)
    H.ensure("protocol: valid run accepted", r.ok and r.value[0] is True, r)
    r = H.run(f.create_features)
    names = ["capacity_nominal", "diagnostic_start_cycle", "diagnostic_interval", "charge_constant_current_1", "charge_constant_current_2", "charge_cutoff_voltage"]
    if seq == 9:
        H.cover("unknown sequence number")
        H.ensure("protocol: no parameters for an unknown sequence number", not r.ok)
    else:
        H.ensure("protocol: no error", r.ok, r)
        if r.ok:
            H.ensure("protocol: the parameters of the file's sequence number", len(f.features) == 1 and list(f.features.columns) == quant and all(f.features[c].iloc[0] == PARAMS[seq][names.index(c)] for c in quant), f.features)
    dp.paths = {}
    r = H.run(m.ChargingProtocol(dp, {"parameters_dir": pdir(), "quantities": quant}).validate)
    H.ensure("protocol: a run without paths refused", r.ok and r.value[0] is False, r)
    hi, lo, d = H.choice("thresholds", [(0.98, 0.78, 0.03), (0.9, 0.8, 0.05)])
    f = m.TrajectoryFastCharge(dp, {"thresh_max_cap": hi, "thresh_min_cap": lo, "interval_cap": d})
    r = H.run(f.validate)
    H.ensure("trajectory: accepted exactly when the capacity falls below the largest threshold", r.ok and bool(r.value[0]) == (min(cap) / max(cap) < hi), r)
    r = H.run(f.create_features)
    w = H.run(dp.capacities_to_cycles, thresh_max_cap=hi, thresh_min_cap=lo, interval_cap=d)
    H.ensure("trajectory: the cycles at which the capacities are reached", r.ok and w.ok and f.features.equals(w.value), (r, w))
