"""C13: per-cycle summary statistics, cycle life, constant-voltage segments, pauses."""
import contextlib
import datetime
import math
from fractions import Fraction

from vc.harness import harness
from vc.values import and_, or_, not_, implies
from props.cycler_gen import gen_rows, datapath, by_cycle

B = "beep.structure.base"
A = "beep.structure.arbin"

META = {
    "title": "Cycle summaries report each cycle's own statistics",
    "statement": "For any cycling record the regular-cycle summary has one row per non-diagnostic cycle index (whatever index the record starts at, and whatever the row labels are), in order, whose values come from that cycle's rows only: maximum charge/discharge capacity and energy, last internal resistance, maximum/mean/minimum temperature, first timestamp, discharge-to-charge energy efficiency (missing when not finite), energies above the error threshold missing, charge and energy throughput cumulated over the regular cycles, seconds from the cycle's start until the charge capacity first reaches full_fast_charge x nominal_capacity (missing if never), time-temperature integral in degree-minutes, longest pause if above one hour else 0, and time/final current/capacity of the constant-voltage part of the charge. A last cycle that is not complete is left out, a single cycle is always kept, and the raw data is left unchanged. The diagnostic summary gives the same for exactly the diagnostic cycles, with coulombic efficiency and cycle type. The constant-voltage segment begins one sample before the first interval of at least dt_tol with |dV/dt| within dVdt_tol and |dI/dt| at least dIdt_tol. Cycle life is the first cycle index whose discharge capacity is at or below threshold x (median of the first n_cycles_cutoff cycles, or 1.1 for shorter records) when the last cycle is at or below it, else one more than the number of cycles; the derived capacity/cycle tables use the same rule.",
    "over": ["inputs", "histories"],
    "qtext": "every cycling record (any cycle numbering, row labels, step lengths, pauses, time stamps, missing resistance/temperature) and every parameter value",
    "why": "tests compare summaries of a few recorded files; records starting at other cycle indices, mixed timestamp formats, diagnostic cycles interleaved, incomplete last cycles, boundary capacities and short CV phases are not sampled",
    "files": ["beep/structure/base.py"],
    "mechanism": [{"name": "summarize_cycles", "where": "beep/structure/base.py:752"},
                  {"name": "summarize_diagnostic", "where": "beep/structure/base.py:1043"},
                  {"name": "get_cycle_life / cycles_to_capacities / capacities_to_cycles", "where": "beep/structure/base.py:1130"},
                  {"name": "get_CV_segment_from_charge, get_CV_time/current/capacity", "where": "beep/structure/base.py:1455"},
                  {"name": "get_max_paused_over_threshold", "where": "beep/structure/base.py:1427"}],
    "observe": ["BEEPDatapath.summarize_cycles", "BEEPDatapath.summarize_diagnostic", "BEEPDatapath.structured_summary",
                "BEEPDatapath.get_cycle_life", "BEEPDatapath.cycles_to_capacities", "BEEPDatapath.capacities_to_cycles", "BEEPDatapath.paused_intervals"],
    "level": "proof",
    "level_note": "summarize_cycles and summarize_diagnostic: obligations discharged for all recorded values, thresholds and parameters on the real pandas code, per layout (2-3 cycles of 1-3 rows, with and without diagnostic cycles, pauses and missing resistances; layouts bounded, values not), modularly against the contract of get_CV_segment_from_charge; that contract, get_CV_time/current/capacity and get_cycle_life: discharged for all values at every row count up to 4; pauses, time stamps of other formats, whole records and the capacity tables: bounded stand-in on generated records against an independent oracle",
    "assumptions": ["float arithmetic treated as real arithmetic in the discharged obligations", "pandas/numpy column semantics as modelled in vc/lframe.py"],
    "bounded": ["summaries: layouts of up to 5 rows symbolic, time stamps fixed", "CV segment: 2-4 charge rows, two tolerance sets", "cycle life: 1-4 cycles, cutoff 1-4", "summaries: generated records of up to 5 cycles x 14 rows", "no claim where no CV interval exists in a charge, nor on the incomplete-last-cycle rule when the record ends with a diagnostic cycle"],
}


# ------------------------------------------------------------------ constant-voltage segment
def charge_cells(H, n):
    t, v, i, q = [], [], [], []
    for k in range(n):
        t.append(H.real("t%d" % k, 0, 10 ** 7, pool=[0, 1, 2.5, 10, 20, 60, 61]))
        v.append(H.real("v%d" % k, 0, 5, pool=[3.6, 3.6, 3.6, 3.5, 3.6001]))
        i.append(H.real("i%d" % k, 0, 100, pool=[1, 0.8, 0.5, 0.2, 0.1, 0.1]))
        q.append(H.real("q%d" % k, 0, 100, pool=[0.1, 0.2, 0.5, 0.9, 1.1]))
    if not H.sym:
        t = sorted(t)
    for k in range(1, n):
        H.assume(t[k - 1] < t[k])
    return t, v, i, q


def cv_start(H, n, t, v, i, dt_tol, dv_tol, di_tol):
    """row index where the segment begins, and whether a constant-voltage interval exists"""
    flags = []
    for k in range(n - 1):
        dt, dv, di = t[k + 1] - t[k], v[k + 1] - v[k], i[k + 1] - i[k]
        flags.append(and_(dt >= dt_tol, abs(dv / dt) <= dv_tol, abs(di / dt) >= di_tol))
    return flags


def _cv(H, n, tols):
    t, v, i, q = charge_cells(H, n)
    dt_tol, dv_tol, di_tol = tols
    flags = cv_start(H, n, t, v, i, dt_tol, dv_tol, di_tol)
    H.assume(or_(*flags) if flags else False)
    first = None
    for k, f in enumerate(flags):
        if H.case(f):
            first = k
            break
    begin = max(first - 1, 0)
    H.cover("segment")
    df = H.lframe({"test_time": t, "voltage": v, "current": i, "charge_capacity": q}, index=[10 + 3 * k for k in range(n)])
    r = H.run(H.mod(B).get_CV_segment_from_charge, df, dt_tol=dt_tol, dVdt_tol=dv_tol, dIdt_tol=di_tol)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("segment rows", H.len(r.value) == n - begin, (H.len(r.value), begin))
    if H.len(r.value) != n - begin:
        return
    got = H.cells(r.value["test_time"])
    H.ensure("segment begins one sample before the first constant-voltage interval", and_(*[H.eq(a, b) for a, b in zip(got, t[begin:])]))
    m = H.mod(B)
    for f, want in ((m.get_CV_time, t[-1] - t[begin]), (m.get_CV_current, i[-1]), (m.get_CV_capacity, q[-1] - q[begin])):
        s = H.run(f, r.value)
        H.ensure("%s" % f.__name__, s.ok and H.eq(s.value, want), s)


@harness("C13", "cv_segment_default", conc=300, targets=[B])
def h_cv(H):
    n = H.choice("rows", [2, 3, 4])
    m = H.mod(B)
    t, v, i, q = charge_cells(H, n)
    flags = cv_start(H, n, t, v, i, 1, 1e-5, 1e-4)
    H.assume(or_(*flags))
    first = next(k for k, f in enumerate(flags) if H.case(f))
    begin = max(first - 1, 0)
    H.cover("segment")
    df = H.lframe({"test_time": t, "voltage": v, "current": i, "charge_capacity": q}, index=[10 + 3 * k for k in range(n)])
    r = H.run(m.get_CV_segment_from_charge, df)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("segment rows", H.len(r.value) == n - begin, (H.len(r.value), begin))
    if H.len(r.value) != n - begin:
        return
    got = H.cells(r.value["test_time"])
    H.ensure("segment begins one sample before the first constant-voltage interval", and_(*[H.eq(a, b) for a, b in zip(got, t[begin:])]))
    for f, want in (("get_CV_time", t[-1] - t[begin]), ("get_CV_current", i[-1]), ("get_CV_capacity", q[-1] - q[begin])):
        s = H.run(getattr(m, f), r.value)
        H.ensure(f, s.ok and H.eq(s.value, want), s)


@harness("C13", "cv_segment_tolerances", conc=200, targets=[B])
def h_cv2(H):
    n = H.choice("rows", [2, 3])
    _cv(H, n, (H.choice("dt_tol", [0.5, 5]), H.choice("dv", [1e-3, 1e-2]), H.choice("di", [1e-2, 1e-1])))


# ------------------------------------------------------------------ cycle life
@harness("C13", "cycle_life", conc=400, targets=[B, A])
def h_life(H):
    n = H.choice("cycles", [1, 2, 3, 4])
    cut = H.choice("cutoff", [1, 2, 3, 4])
    thr = H.choice("threshold", [0.5, 0.8, 0.98])
    caps = [H.real("c%d" % k, 0.01, 5, pool=[1.1, 0.88, 0.55, 1.0, 0.8, 0.5, 0.3]) for k in range(n)]
    start = H.int("start", 0, 50)
    dp = H.mod(A).ArbinDatapath(raw_data=None, metadata={})
    dp.structured_summary = H.lframe({"discharge_capacity": caps, "cycle_index": [start + 2 * k for k in range(n)]})
    if n > cut:
        s = sort_cells(H, caps[:cut])
        mx = s[cut // 2] if cut % 2 else (s[cut // 2 - 1] + s[cut // 2]) / 2
    else:
        mx = 1.1
    if H.case(caps[-1] / mx <= thr):
        k = next(k for k in range(n) if H.case(caps[k] / mx <= thr))
        want = start + 2 * k
    else:
        want = n + 1
    H.cover("life")
    r = H.run(dp.get_cycle_life, n_cycles_cutoff=cut, threshold=thr)
    H.ensure("no error", r.ok, r)
    if r.ok:
        H.ensure("cycle life", H.eq(r.value, want), (r.value, want))


def sort_cells(H, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            if H.case(xs[j + 1] < xs[j]):
                xs[j], xs[j + 1] = xs[j + 1], xs[j]
    return xs

# ------------------------------------------------------------------ cycle summaries, one row per cycle
COL = ("discharge_capacity", "charge_capacity", "discharge_energy", "charge_energy", "temperature", "voltage")
LAYOUTS = {"two": ([1, 1, 1, 2, 2], None), "gap": ([3, 3, 7, 7], None), "diagnostic first": ([1, 2, 2, 3, 3], [1]), "diagnostic between": ([1, 1, 2, 3, 3], [2])}
CASES = [(LAYOUTS["two"], "durations", None, True, 0), (LAYOUTS["gap"], "errors", 3, False, None), (LAYOUTS["diagnostic first"], "durations", 0, False, 1),
         (LAYOUTS["diagnostic between"], "errors", 1, True, 0)]


def missing(x):
    import numpy as np
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def is_max(H, got, xs):
    return and_(*[H.eq(got, x) if len(xs) == 1 else got >= x for x in xs], or_(*[H.eq(got, x) for x in xs]))


def is_min(H, got, xs):
    return and_(*[got <= x for x in xs], or_(*[H.eq(got, x) for x in xs]))


@contextlib.contextmanager
def standin(o, k, v):
    old = getattr(o, k)
    setattr(o, k, v)
    try:
        yield
    finally:
        setattr(o, k, old)


@harness("C13", "cycle_summary", conc=100, targets=[B, A], budget=250)
def h_summary(H):
    import pandas as pd
    m = H.mod(B)
    # combinations of layout, thresholds that matter, missing resistance, pause and position of the segment
    (cyc, diag), mode, miss, paused, cut = CASES[H.choice("case", range(len(CASES)))] if H.sym else (
        H.choice("layout", list(LAYOUTS.values())), H.choice("mode", ["durations", "errors"]), H.choice("missing", [None, 0, 3]), H.choice("pause", [False, True]),
        H.choice("segment", [0, 1, None]))
    n = len(cyc)
    lo = Fraction(1, 100) if H.sym else 0.01
    d = {"cycle_index": list(cyc)}
    for c in COL:
        d[c] = [H.real("%s%d" % (c, i), lo, 10) for i in range(n)]
    d["internal_resistance"] = [float("nan") if i == miss else H.real("ir%d" % i, 0, 1) for i in range(n)]
    secs = [0, 20, 50, 4000, 4010][:n] if paused else [0, 20, 50, 90, 100][:n]
    d["date_time_iso"] = (pd.Timestamp("2021-03-01T10:00:00+00:00") + pd.to_timedelta(secs, unit="s")).map(lambda t: t.isoformat()).tolist()
    d["test_time"] = [float(s) for s in secs]
    d["current"] = [-1.0 if i + 1 == n or cyc[i + 1] != cyc[i] else 1.0 for i in range(n)]
    d["step_index"] = [2 if x < 0 else 1 for x in d["current"]]
    raw = H.pframe(d, index=None if n == 4 else [9, 7, 5, 3, 1])
    # a threshold of the fast charge that some rows reach, or none; erroneous energies, or none
    nom, ffc = H.real("nominal", 1, 5), H.real("fraction", lo, 1)
    if mode == "errors":
        thr = H.real("threshold", 1, 9)
        for i in range(n):
            H.assume(d["charge_capacity"][i] < nom * ffc)
    else:
        thr = 1e6
    vmin, vmax, ratio = H.real("vmin", 0, 5), H.real("vmax", 0, 5), H.real("ratio", 0, 2)
    dp = H.mod(A).ArbinDatapath(raw_data=raw, metadata={})
    if diag:
        dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig({"reset": diag})
    def segment(charge, *a, **k):         # contract proved by cv_segment_default: a tail of the charge rows, or nothing
        return charge.iloc[len(charge):] if cut is None else charge.iloc[min(cut, max(len(charge) - 1, 0)):]
    H.cover("summary")
    with standin(m, "get_CV_segment_from_charge", segment):
        r = H.run(dp.summarize_cycles, nominal_capacity=nom, full_fast_charge=ffc, cycle_complete_discharge_ratio=ratio, cycle_complete_vmin=vmin,
                  cycle_complete_vmax=vmax, error_threshold=thr)
    H.ensure("no error", r.ok, r if not r.ok else None)
    if not r.ok:
        return
    s = r.value
    reg = [c for c in dict.fromkeys(cyc) if not diag or c not in diag]
    rows = {c: [i for i in range(n) if cyc[i] == c] for c in reg}
    pick = lambda k, c: [d[k][i] for i in rows[c]]
    last = reg[-1]
    done = and_(or_(*[v < vmin for v in pick("voltage", last)]), or_(*[v > vmax for v in pick("voltage", last)]),
                or_(*[and_(*[q > ratio * x for x in pick("charge_capacity", last)]) for q in pick("discharge_capacity", last)]))
    want = reg if H.case(done) else reg[:-1]
    H.ensure("one row per regular cycle, incomplete last cycle left out", [int(c) for c in s["cycle_index"]] == want, ([int(c) for c in s["cycle_index"]], want))
    if len(s) != len(want):
        return
    tol = (lambda a, b: H.eq(a, b)) if H.sym else near
    ct, et = 0, 0
    for k, c in enumerate(want):
        row = {x: s[x].iloc[k] for x in s.columns}
        ix = rows[c]
        if H.sym:
            for x in ("charge_capacity", "discharge_capacity"):
                H.ensure("largest " + x, is_max(H, row[x], pick(x, c)), c)
            H.ensure("largest temperature", is_max(H, row["temperature_maximum"], pick("temperature", c)), c)
            H.ensure("smallest temperature", is_min(H, row["temperature_minimum"], pick("temperature", c)), c)
        else:
            for x, f, src in (("charge_capacity", max, "charge_capacity"), ("discharge_capacity", max, "discharge_capacity"), ("temperature_maximum", max, "temperature"), ("temperature_minimum", min, "temperature")):
                H.ensure("largest " + x, near(row[x], f(pick(src, c))), c)
        ts_ = pick("temperature", c)
        H.ensure("mean temperature", tol(row["temperature_average"], sum(ts_[1:], ts_[0]) / len(ts_)), c)
        en = {}
        for x in ("charge_energy", "discharge_energy"):
            bad = or_(*[v > thr for v in pick(x, c)])
            if H.case(bad):
                H.ensure("erroneous %s is missing" % x, missing(row[x]), (c, x, row[x]))
                en[x] = None
            else:
                H.ensure("largest " + x, is_max(H, row[x], pick(x, c)) if H.sym else near(row[x], max(pick(x, c))), (c, x))
                en[x] = row[x]
        if en["charge_energy"] is not None and en["discharge_energy"] is not None:
            H.ensure("energy efficiency", H.eq(row["energy_efficiency"] * en["charge_energy"], en["discharge_energy"]) if H.sym
                     else near(row["energy_efficiency"], en["discharge_energy"] / en["charge_energy"]), c)
        ct = ct + row["charge_capacity"]
        H.ensure("charge throughput", tol(row["charge_throughput"], ct), c)
        if en["charge_energy"] is not None:
            et = et + en["charge_energy"]
            H.ensure("energy throughput", tol(row["energy_throughput"], et), c)
        have = [i for i in ix if i != miss]
        H.ensure("last internal resistance", tol(row["dc_internal_resistance"], d["internal_resistance"][have[-1]]) if have else missing(row["dc_internal_resistance"]), c)
        dur = None
        for i in ix:
            if H.case(d["charge_capacity"][i] >= nom * ffc):
                dur = float(secs[i] - secs[ix[0]])
                break
        g = row["charge_duration"]
        H.ensure("charge duration", missing(g) if dur is None else float(g) == dur, (c, dur))
        tti = 0
        for a, b in zip(ix, ix[1:]):
            tti = tti + (d["temperature"][a] + d["temperature"][b]) * (Fraction(secs[b] - secs[a], 120) if H.sym else (secs[b] - secs[a]) / 120)
        H.ensure("time-temperature integral", close_to(H, row["time_temperature_integrated"], tti), (c, row["time_temperature_integrated"]))
        gap = max([secs[b] - secs[a] for a, b in zip(ix, ix[1:])] or [0])
        H.ensure("pause", row["paused"] == (gap if gap > 3600 else 0), (c, row["paused"]))
        ch = [i for i in ix if d["current"][i] > 0]
        seg = ch[min(cut, max(len(ch) - 1, 0)):] if cut is not None else []
        if seg:
            H.ensure("constant-voltage statistics", and_(tol(row["CV_time"], d["test_time"][seg[-1]] - d["test_time"][seg[0]]), tol(row["CV_current"], 1.0),
                                                         tol(row["CV_capacity"], d["charge_capacity"][seg[-1]] - d["charge_capacity"][seg[0]])), c)
        else:
            H.ensure("no constant-voltage statistics", all(missing(row[x]) for x in ("CV_time", "CV_current", "CV_capacity")), c)
        H.ensure("first timestamp", row["date_time_iso"] == d["date_time_iso"][ix[0]], c)


def close_to(H, got, want):
    """minutes are computed in floating point: equal up to 1e-9 times the temperatures (at most 10)"""
    if not H.sym:
        return near(got, want)
    return and_(got - want <= Fraction(1, 10 ** 6), want - got <= Fraction(1, 10 ** 6))


@harness("C13", "diagnostic_summary", conc=80, targets=[B, A])
def h_diag_summary(H):
    import pandas as pd
    m = H.mod(B)
    cyc, diag, kinds, cut, paused = H.choice("case", [([1, 1, 1, 2, 2], [1], ["reset"], 0, True), ([1, 2, 2, 5, 5], [2, 5], ["hppc", "rpt_1C"], None, False),
                                                     ([1, 1, 2, 2, 3], [1, 2], ["rpt_1C", "hppc"], 1, True)])
    n = len(cyc)
    lo = Fraction(1, 100) if H.sym else 0.01
    d = {"cycle_index": list(cyc)}
    for c in COL:
        d[c] = [H.real("%s%d" % (c, i), lo, 10) for i in range(n)]
    d["internal_resistance"] = [0.1] * n
    secs = [0, 20, 4000, 4100, 9000] if paused else [0, 20, 50, 90, 100]
    d["date_time_iso"] = (pd.Timestamp("2021-03-01T10:00:00+00:00") + pd.to_timedelta(secs, unit="s")).map(lambda t: t.isoformat()).tolist()
    d["test_time"] = [float(s) for s in secs]
    d["current"] = [-1.0] * n          # the step number, not the current, decides
    d["step_index"] = [3 if i + 1 < n and cyc[i + 1] == cyc[i] else 5 for i in range(n)]
    raw = H.pframe(d, index=H.choice("labels", [None, [9, 7, 5, 3, 1]]))
    dp = H.mod(A).ArbinDatapath(raw_data=raw, metadata={})
    dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig({k: [c] for k, c in zip(kinds, diag)})

    def segment(charge, *a, **k):
        return charge.iloc[len(charge):] if cut is None else charge.iloc[min(cut, max(len(charge) - 1, 0)):]
    H.cover("summary")
    with standin(m, "get_CV_segment_from_charge", segment):
        r = H.run(dp.summarize_diagnostic)
    H.ensure("no error", r.ok, r if not r.ok else None)
    if not r.ok:
        return
    s = r.value
    H.ensure("exactly the diagnostic cycles", [int(c) for c in s["cycle_index"]] == diag)
    H.ensure("cycle types", [str(k) for k in s["cycle_type"]] == kinds)
    if len(s) != len(diag):
        return
    tol = (lambda a, b: H.eq(a, b)) if H.sym else near
    for k, c in enumerate(diag):
        row = {x: s[x].iloc[k] for x in s.columns}
        ix = [i for i in range(n) if cyc[i] == c]
        for x, src in (("charge_capacity",) * 2, ("discharge_capacity",) * 2, ("charge_energy",) * 2, ("discharge_energy",) * 2, ("temperature_maximum", "temperature")):
            v = [d[src][i] for i in ix]
            H.ensure("largest " + x, is_max(H, row[x], v) if H.sym else near(row[x], max(v)), c)
        v = [d["temperature"][i] for i in ix]
        H.ensure("smallest temperature", is_min(H, row["temperature_minimum"], v) if H.sym else near(row["temperature_minimum"], min(v)), c)
        H.ensure("mean temperature", tol(row["temperature_average"], sum(v[1:], v[0]) / len(v)), c)
        H.ensure("coulombic efficiency", H.eq(row["coulombic_efficiency"] * row["charge_capacity"], row["discharge_capacity"]) if H.sym
                 else near(row["coulombic_efficiency"], row["discharge_capacity"] / row["charge_capacity"]), c)
        gap = max([secs[b] - secs[a] for a, b in zip(ix, ix[1:])] or [0])
        H.ensure("pause", row["paused"] == (gap if gap > 3600 else 0), (c, row["paused"]))
        H.ensure("first timestamp", row["date_time_iso"] == d["date_time_iso"][ix[0]], c)
        ch = [i for i in ix if d["step_index"][i] == min(d["step_index"][j] for j in ix)]
        seg = ch[min(cut, max(len(ch) - 1, 0)):] if cut is not None else []
        if seg:
            H.ensure("constant-voltage statistics", and_(tol(row["CV_time"], d["test_time"][seg[-1]] - d["test_time"][seg[0]]), tol(row["CV_current"], -1.0),
                                                         tol(row["CV_capacity"], d["charge_capacity"][seg[-1]] - d["charge_capacity"][seg[0]])), c)
        else:
            H.ensure("no constant-voltage statistics", all(row[x] is None or missing(row[x]) for x in ("CV_time", "CV_current", "CV_capacity")), c)


# ------------------------------------------------------------------ bounded stand-ins
def near(a, b, tol=2e-5):
    a, b = float("nan") if a is None else float(a), float("nan") if b is None else float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def F32(x):
    import numpy as np
    return np.float32(x)


def ts(s):
    return datetime.datetime.fromisoformat(s)


def notnan(xs):
    return [x for x in xs if not (isinstance(x, float) and math.isnan(x))]


def cv_oracle(rows):
    n = len(rows)
    for k in range(n - 1):
        dt = rows[k + 1]["test_time"] - rows[k]["test_time"]
        if dt >= 1 and abs(rows[k + 1]["voltage"] - rows[k]["voltage"]) / dt <= 1e-5 and abs(rows[k + 1]["current"] - rows[k]["current"]) / dt >= 1e-4:
            b = max(k - 1, 0)
            return (rows[-1]["test_time"] - rows[b]["test_time"], rows[-1]["current"], rows[-1]["charge_capacity"] - rows[b]["charge_capacity"])
    return None if n else (float("nan"),) * 3


def pause_oracle(rows):
    secs = [math.floor(ts(r["date_time_iso"]).timestamp()) for r in rows]
    m = max([b - a for a, b in zip(secs, secs[1:])] or [0])
    return m if m > 3600 else 0


def common(H, row, rs, temp, thr, lab):
    for c in ("charge_capacity", "discharge_capacity"):
        H.ensure("%s %s" % (lab, c), near(row[c], max(r[c] for r in rs)), (row[c], [r[c] for r in rs]))
    if temp:
        ts_ = [r["temperature"] for r in rs]
        H.ensure(lab + " temperatures", near(row["temperature_maximum"], max(ts_)) and near(row["temperature_minimum"], min(ts_))
                 and near(row["temperature_average"], sum(ts_) / len(ts_)), (dict(row), ts_))
    H.ensure(lab + " first timestamp", row["date_time_iso"] == rs[0]["date_time_iso"], row["date_time_iso"])
    H.ensure(lab + " pause", row["paused"] == pause_oracle(rs), (row["paused"], pause_oracle(rs)))


@harness("C13", "summarize_cycles", proof=False, conc=120, targets=[B, A])
def h_sum(H):
    rng = H.rng
    temp = rng.random() < 0.8
    rows = gen_rows(H, ncyc=5, gaps=rng.random() < 0.3, temp=temp)
    cyc = by_cycle(rows)
    ids = list(cyc)
    big = None
    if rng.random() < 0.2:
        big = rng.choice(rows)
        big["charge_energy"] = 2e6
    dp = datapath(H, rows, index=rng.choice([None, list(range(5, 5 + len(rows))), [2 * k for k in range(len(rows))][::-1]]))
    diag = []
    if len(ids) > 2 and rng.random() < 0.5:
        diag = sorted(rng.sample(ids[:-1], rng.randint(1, len(ids) - 2)))
        half = len(diag) // 2
        cfg = {k: v for k, v in (("reset", diag[:half]), ("hppc", diag[half:])) if v}
        dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig(cfg)
    before = dp.raw_data.copy()
    nom, ffc = rng.choice([(1.1, 0.8), (1.0, 0.5), (0.6, 1.0)])
    vmin, vmax, ratio = rng.choice([(3.3, 3.3, 0.97), (2.8, 3.55, 0.95)])
    thr = 1e6
    if rng.random() < 0.4:          # documented defaults
        (nom, ffc), (vmin, vmax, ratio) = (1.1, 0.8), (3.3, 3.3, 0.97)
        if rng.random() < 0.7:
            kf = rng.choice([0.879, 0.881, 0.9]) / max(x["charge_capacity"] for x in rows)
            kl = rng.choice([0.96, 0.98, 1.0, 1.1])
            for x in rows:
                x["charge_capacity"] *= kf
            for c in ids:
                qc, qd = max(x["charge_capacity"] for x in cyc[c]), max(x["discharge_capacity"] for x in cyc[c])
                for x in cyc[c]:
                    x["discharge_capacity"] *= kl * qc / qd if qd else 1
            for x in rows:
                for k in ("charge_capacity", "discharge_capacity"):
                    x[k] = float(F32(x[k]))
            new = datapath(H, rows, index=list(dp.raw_data.index))
            new.diagnostic = dp.diagnostic
            dp, before = new, new.raw_data.copy()
        r = H.run(dp.summarize_cycles)
    else:
        if rng.random() < 0.3:
            thr = rng.choice([0.9, 2.0, 3.0])
        r = H.run(dp.summarize_cycles, nominal_capacity=nom, full_fast_charge=ffc, cycle_complete_vmin=vmin, cycle_complete_vmax=vmax, cycle_complete_discharge_ratio=ratio, error_threshold=thr)
    H.ensure("no error", r.ok, r)
    s = r.value
    H.ensure("raw data unchanged", dp.raw_data.equals(before) and list(dp.raw_data.columns) == list(before.columns), list(dp.raw_data.columns))
    reg = [c for c in ids if c not in diag]
    lastrows = cyc[ids[-1]]
    lv = [x["voltage"] for x in lastrows]
    complete = min(lv) < vmin and max(lv) > vmax and max(x["discharge_capacity"] for x in lastrows) > ratio * max(x["charge_capacity"] for x in lastrows)
    want = reg if complete or len(reg) == 1 else reg[:-1]
    H.ensure("one row per regular cycle, incomplete last cycle left out", s["cycle_index"].tolist() == want, (s["cycle_index"].tolist(), want))
    ct = et = 0.0
    for k, c in enumerate(want):
        rs = cyc[c]
        row = s.iloc[k]
        common(H, row, rs, temp, thr, "summary")
        ce, de = max(x["charge_energy"] for x in rs), max(x["discharge_energy"] for x in rs)
        H.ensure("energies, erroneous ones missing", near(row["charge_energy"], ce if ce <= thr else None) and near(row["discharge_energy"], de if de <= thr else None),
                 (row["charge_energy"], ce))
        if ce <= thr and de <= thr:
            H.ensure("energy efficiency", near(row["energy_efficiency"], de / ce if ce else None), (row["energy_efficiency"], de, ce))
        ct += max(x["charge_capacity"] for x in rs)
        H.ensure("charge throughput", near(row["charge_throughput"], ct), (row["charge_throughput"], ct))
        if ce <= thr:
            et += ce
            H.ensure("energy throughput", near(row["energy_throughput"], et), (row["energy_throughput"], et))
        ir = notnan([x["internal_resistance"] for x in rs])
        H.ensure("last internal resistance", near(row["dc_internal_resistance"], ir[-1] if ir else None), row["dc_internal_resistance"])
        fin = [x for x in rs if x["charge_capacity"] >= nom * ffc]
        dur = (ts(fin[0]["date_time_iso"]) - ts(rs[0]["date_time_iso"])).total_seconds() if fin else None
        H.ensure("charge duration", near(row["charge_duration"], dur), (c, row["charge_duration"], dur))
        if temp:
            m = [(ts(x["date_time_iso"]) - ts(rs[0]["date_time_iso"])).total_seconds() / 60 for x in rs]
            tti = sum((m[j + 1] - m[j]) * (rs[j]["temperature"] + rs[j + 1]["temperature"]) / 2 for j in range(len(rs) - 1))
            H.ensure("time-temperature integral", near(row["time_temperature_integrated"], tti), (row["time_temperature_integrated"], tti))
        cv = cv_oracle([x for x in rs if x["current"] > 0])
        if cv is not None:
            H.ensure("constant-voltage statistics", near(row["CV_time"], cv[0]) and near(row["CV_current"], cv[1]) and near(row["CV_capacity"], cv[2]),
                     (c, row["CV_time"], row["CV_current"], row["CV_capacity"], cv))
    H.ensure("pauses per cycle", dp.paused_intervals.to_dict() == {c: pause_oracle(cyc[c]) for c in ids})
    if diag:
        r = H.run(dp.summarize_diagnostic)
        H.ensure("diagnostic summary: no error", r.ok, r)
        g = r.value
        H.ensure("exactly the diagnostic cycles", g["cycle_index"].tolist() == diag, g["cycle_index"].tolist())
        for k, c in enumerate(diag):
            rs, row = cyc[c], g.iloc[k]
            common(H, row, rs, temp, thr, "diagnostic")
            H.ensure("diagnostic energies", near(row["charge_energy"], max(x["charge_energy"] for x in rs)) and near(row["discharge_energy"], max(x["discharge_energy"] for x in rs)))
            a, b = max(x["discharge_capacity"] for x in rs), max(x["charge_capacity"] for x in rs)
            H.ensure("coulombic efficiency", near(row["coulombic_efficiency"], a / b), row["coulombic_efficiency"])
            H.ensure("cycle type", row["cycle_type"] == ("reset" if c in diag[:half] else "hppc"), row["cycle_type"])
            m0 = min(x["step_index"] for x in rs)
            cv = cv_oracle([x for x in rs if x["step_index"] == m0])
            if cv is not None:
                H.ensure("diagnostic constant-voltage statistics", near(row["CV_time"], cv[0]) and near(row["CV_current"], cv[1]) and near(row["CV_capacity"], cv[2]))


@harness("C13", "capacity_tables", proof=False, conc=60, targets=[B, A])
def h_tables(H):
    import numpy as np
    import pandas as pd
    rng = H.rng
    n = rng.choice([5, 30, 41, 60])
    q0 = rng.uniform(0.9, 1.2)
    fade = rng.choice([0.0005, 0.004, 0.01])
    caps = [q0 * (1 - fade * k) + rng.uniform(-1e-3, 1e-3) for k in range(n)]
    st = rng.choice([0, 1, 3])
    dp = H.mod(A).ArbinDatapath(raw_data=None, metadata={})
    dp.structured_summary = pd.DataFrame({"cycle_index": range(st, st + n), "discharge_capacity": caps})

    def life(thr):
        mx = sorted(caps[:40]) if n > 40 else None
        mx = (mx[19] + mx[20]) / 2 if mx else 1.1
        if caps[-1] / mx <= thr:
            return next(st + k for k in range(n) if caps[k] / mx <= thr)
        return n + 1
    hi, lo, d = rng.choice([(0.98, 0.78, 0.03), (0.9, 0.5, 0.1)])
    r = H.run(dp.capacities_to_cycles, thresh_max_cap=hi, thresh_min_cap=lo, interval_cap=d)
    H.ensure("capacities_to_cycles: no error", r.ok, r)
    thr = np.around(np.arange(hi, lo, -d), 2)
    H.ensure("capacities_to_cycles", list(r.value.columns) == ["capacity_%s" % x for x in thr] and r.value.iloc[0].tolist() == [life(x) for x in thr],
             (r.value.iloc[0].tolist(), [life(x) for x in thr]))
    a, b, k = rng.choice([(0, 40, 10), (5, 100, 20), (10, 33, 7)])
    r = H.run(dp.cycles_to_capacities, cycle_min=a, cycle_max=b, cycle_interval=k)
    H.ensure("cycles_to_capacities: no error", r.ok, r)
    want = [caps[x] if x < n else 0 for x in range(a, b, k)]
    H.ensure("cycles_to_capacities", list(r.value.columns) == ["cycle_%d" % x for x in range(a, b, k)] and all(near(p, q, 1e-12) for p, q in zip(r.value.iloc[0], want)),
             (r.value.iloc[0].tolist(), want))
