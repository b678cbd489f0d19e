"""C14: interpolated (structured) cycle data."""
import math

from vc.harness import harness
from vc.values import and_, or_, not_, implies
from props.cycler_gen import gen_rows, datapath, by_cycle

B = "beep.structure.base"
A = "beep.structure.arbin"
COLS = ["test_time", "voltage", "current", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "internal_resistance", "temperature"]

META = {
    "title": "Structured data interpolates every step of every cycle faithfully",
    "statement": "Interpolating a data frame on a field gives the requested number of equally spaced field values over the requested range, with every other column linearly interpolated between the two neighbouring measured points (missing before the first point, held after the last). A step is a charge step when its charge capacity rises on average (ignoring a single jump of more than 99 % of its range) and faster than its discharge capacity, a discharge step in the opposite case, and otherwise takes the configured default. Structured cycle data contains, for every regular (non-diagnostic, non-excluded) cycle and every charge or discharge step with at least two points, exactly one such interpolation, labelled with the cycle index, step index and step type: on voltage over v_range, on charge/discharge capacity over the whole record's range, on time over the step, and on time for all steps of that kind if any regular cycle contains a waveform step of that kind. Diagnostic data contains one interpolation per contiguous run of a step in every diagnostic cycle - on voltage, or on time if the voltage changes by less than v_delta_min - labelled with cycle index and type, step index, position of the run and order of the step, with dQ/dV as ratio of consecutive differences. None of it depends on the labels of the rows, and the raw data is left unchanged; structure() runs each stage once with the requested parameters (documented defaults otherwise, diagnostics only when configured), stores these results with the parameters, and unstructure() removes them.",
    "over": ["inputs", "histories"],
    "qtext": "every data frame, step pattern, cycle numbering, row labelling, excluded/diagnostic cycle set, axis and resolution",
    "why": "tests compare row counts and a few values on recorded files; other row labels, repeated steps, short steps, missing capacities, waveform detection across cycles and value correctness between the sampled points are not covered",
    "files": ["beep/structure/base.py"],
    "mechanism": [{"name": "interpolate_df", "where": "beep/structure/base.py:1257"},
                  {"name": "interpolate_step / interpolate_cycles", "where": "beep/structure/base.py:581"},
                  {"name": "interpolate_diagnostic_cycles", "where": "beep/structure/base.py:905"},
                  {"name": "step_is_chg_state / step_is_waveform", "where": "beep/structure/base.py:1322"},
                  {"name": "structure / unstructure", "where": "beep/structure/base.py:502"}],
    "observe": ["beep.structure.base.interpolate_df", "BEEPDatapath.interpolate_cycles", "BEEPDatapath.interpolate_diagnostic_cycles",
                "BEEPDatapath.structured_data", "beep.structure.base.step_is_chg"],
    "level": "exploration",
    "level_note": "step_is_chg_state/step_is_chg/step_is_dchg: obligations discharged for all real capacities at 1-3 rows including missing values (bounded in rows); interpolate_df, interpolate_step/cycles, interpolate_diagnostic_cycles, structure/unstructure: bounded stand-in on generated records against an independent linear-interpolation oracle (pandas merge/interpolate are outside the verifier's reach)",
    "assumptions": ["float arithmetic treated as real arithmetic in the discharged obligations", "pandas/numpy column semantics as modelled in vc/lframe.py"],
    "bounded": ["charge state: 1-3 rows", "interpolation: generated records of up to 4 cycles, resolutions up to 37", "no value claim where the interpolation field has ties, nor where the discharge capacity is undefined and the charge capacity does not rise"],
}


# ------------------------------------------------------------------ charge state of a step
def avg_delta(H, cells, nans):
    """average change between consecutive points, ignoring single jumps of more than 99 % of the range; None if undefined"""
    n = len(cells)
    known = [k for k in range(n) if not H.case(nans[k])]
    if not known:
        return None
    hi = lo = cells[known[0]]
    for k in known[1:]:
        if H.case(cells[k] > hi):
            hi = cells[k]
        if H.case(cells[k] < lo):
            lo = cells[k]
    rng = hi - lo
    ds = []
    for k in range(1, n):
        if k in known and k - 1 in known:
            d = cells[k] - cells[k - 1]
            if H.case(and_(rng > 0, d > 0.99 * rng)):
                continue
            ds.append(d)
    if not ds:
        return None
    tot = ds[0]
    for d in ds[1:]:
        tot = tot + d
    return tot / len(ds)


def state(H, ch, dc):
    """True charging / False discharging / None cannot be told; 'skip' where nothing is claimed"""
    if ch is None and dc is None:
        return None
    if ch is None:
        return False if H.case(dc > 0) else None
    if dc is None:
        return True if H.case(ch > 0) else "skip"
    if H.case(and_(ch > dc, ch > 0)):
        return True
    if H.case(and_(ch < dc, dc > 0)):
        return False
    return None


@harness("C14", "charge_state_of_step", conc=500, targets=[B], budget=200)
def h_state(H):
    n = H.choice("rows", [1, 2, 3])
    cs, ds = [], []
    mode = H.choice("missing", ["none", "charge", "discharge", "both", "point"])
    miss = {"charge": [1] * n + [0] * n, "discharge": [0] * n + [1] * n, "both": [1] * 2 * n}.get(mode, [0] * 2 * n)
    if mode == "point":
        miss[H.choice("which", list(range(2 * n)))] = 1
    for k in range(n):
        cs.append(H.real("c%d" % k, -10, 10, pool=[0, 0, 0.1, 0.2, 0.5, 1, 1.5]))
        ds.append(H.real("d%d" % k, -10, 10, pool=[0, 0, 0.1, 0.3, 0.5, 1, 1.2]))
    nanv = float("nan")
    if not H.sym and n > 1 and H.bool("plain"):
        cs = sorted(cs)
    a, b = avg_delta(H, cs, [bool(m) for m in miss[:n]]), avg_delta(H, ds, [bool(m) for m in miss[n:]])
    if not H.sym:
        # floating point: stay away from ties
        for x in (a, b):
            H.assume(x is None or x == 0 or abs(x) > 1e-9)
        H.assume(a is None or b is None or a == b or abs(a - b) > 1e-9)
    st = state(H, a, b)
    H.assume(st != "skip")
    H.cover("state")
    df = H.lframe({"charge_capacity": [nanv if m else x for m, x in zip(miss[:n], cs)],
                   "discharge_capacity": [nanv if m else x for m, x in zip(miss[n:], ds)]}, dtypes={"charge_capacity": "float64", "discharge_capacity": "float64"})
    m = H.mod(B)
    for chg, dflt in ((True, True), (False, True), (False, False)):
        r = H.run(m.step_is_chg if chg else m.step_is_dchg, df, indeterminate_step_charge=dflt)
        H.ensure("no error", r.ok, r)
        want = dflt if st is None else st
        if r.ok:
            H.ensure("charge state", H.eq(r.value, want == chg), (r.value, want, chg))


# ------------------------------------------------------------------ bounded stand-ins
def near(a, b, tol=3e-5):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def lin(pts, x, eps=1e-7):
    """pts sorted (x, y), distinct x, y may be NaN"""
    pts = [p for p in pts if not math.isnan(p[1])]
    if not pts or x < pts[0][0] - eps:
        return float("nan")
    if x >= pts[-1][0]:
        return pts[-1][1]
    if x <= pts[0][0]:
        return None if x < pts[0][0] else pts[0][1]
    for (a, ya), (b, yb) in zip(pts, pts[1:]):
        if a <= x <= b:
            return ya + (yb - ya) * (x - a) / (b - a)


def check_points(H, lab, got, src, field, rng_, res, cols):
    """got: interpolated frame (in field order), src: measured rows"""
    xs = [rng_[0] + (rng_[1] - rng_[0]) * k / (res - 1) for k in range(res)]
    if rng_[0] > rng_[1]:
        xs = xs[::-1]
    gx = sorted(float(v) for v in got[field])
    H.ensure(lab + ": requested equally spaced points", len(gx) == res and all(near(p, q, 1e-6) for p, q in zip(gx, xs)), (len(gx), res, gx[:3], xs[:3]))
    order = sorted(range(len(src)), key=lambda k: src[k][field])
    if any(src[order[k]][field] == src[order[k + 1]][field] for k in range(len(order) - 1)):
        return
    g = got.sort_values(field)
    for c in cols:
        if c == field or c not in src[0] or c not in g:
            continue
        pts = [(src[k][field], src[k][c]) for k in order]
        vals = [float(v) for v in g[c]]
        kn = [p for p in pts if not math.isnan(p[1])]
        for x, v in zip(xs, vals):
            if kn and abs(x - kn[0][0]) < 1e-6:
                continue        # on the first point up to rounding
            w = lin(pts, x)
            H.ensure(lab + ": %s linearly interpolated" % ("column" if c not in ("voltage", "current") else c), w is None or near(v, w), (c, field, x, v, w))


def monotone(H, n, start, lo, hi):
    xs = [start]
    for _ in range(n - 1):
        xs.append(xs[-1] + H.rng.uniform(lo, hi))
    return xs


@harness("C14", "interpolate_df", proof=False, conc=150, targets=[B])
def h_df(H):
    import pandas as pd
    rng = H.rng
    n = rng.randint(2, 7)
    v = monotone(H, n, rng.uniform(2.5, 3), 0.01, 0.3)
    if rng.random() < 0.5:
        v = v[::-1]
    rows = [{"voltage": v[k], "test_time": 10.0 * k + rng.random(), "charge_capacity": rng.uniform(0, 1), "current": rng.uniform(-1, 1),
             "internal_resistance": float("nan") if rng.random() < 0.2 else rng.random(), "other": rng.random()} for k in range(n)]
    df = pd.DataFrame(rows, index=[7 * k % 101 + 3 for k in range(n)])
    field = rng.choice(["voltage", "voltage", "test_time"])
    ends = [rows[0][field], rows[-1][field]]
    fr = rng.choice([None, [min(ends), max(ends)], [min(ends) - 0.2, max(ends) + 0.3], [min(ends) + 0.05, max(ends) + 0.1]])
    cols = rng.choice([None, ["test_time", "voltage", "current", "charge_capacity", "internal_resistance", "notthere"]])
    res = rng.choice([2, 3, 10, 37])
    keep = df.copy()
    r = H.run(H.mod(B).interpolate_df, df, field, field_range=list(fr) if fr else None, columns=cols, resolution=res)
    H.ensure("no error", r.ok, r)
    want = set(cols or rows[0]) & set(rows[0]) | {field}
    H.ensure("requested columns", set(r.value.columns) == want, list(r.value.columns))
    H.ensure("input unchanged", df.equals(keep))
    check_points(H, "interpolate_df", r.value, rows, field, fr or ends, res, list(want))


def classify(H, rs, dflt):
    st = state(H, avg_delta(H, [x["charge_capacity"] for x in rs], [False] * len(rs)), avg_delta(H, [x["discharge_capacity"] for x in rs], [False] * len(rs)))
    if st == "skip":
        return False       # a one-jump discharge step with constant charge capacity
    return dflt if st is None else st


@harness("C14", "interpolate_cycles", proof=False, conc=120, targets=[B, A])
def h_cyc(H):
    rng = H.rng
    rows = gen_rows(H, ncyc=4, gaps=rng.random() < 0.3)
    if rng.random() < 0.3:      # a step index that comes back within the cycle
        for r in rows:
            if r["step_index"] == 3 and r["current"] < 0:
                r["step_index"] = 9
    cyc = by_cycle(rows)
    ids = list(cyc)
    wf = rng.random() < 0.25
    dfl = rng.random() < 0.7
    diag = sorted(rng.sample(ids, rng.randint(1, len(ids) - 1))) if len(ids) > 1 and rng.random() < 0.5 else []
    excl = [rng.choice(ids)] if rng.random() < 0.3 else None
    if wf:
        tgt = rng.choice(ids)
        for r in rows:
            r["_wf_chg_cap"] = float("nan")
            r["_wf_dis_cap"] = 0.1 if r["cycle_index"] == tgt and r["current"] < 0 else float("nan")
    dp = datapath(H, rows, index=rng.choice([None, list(range(5, 5 + len(rows))), [2 * k for k in range(len(rows))][::-1]]))
    dp.indeterminate_step_default_charge = dfl
    if diag:
        dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig({"reset": diag})
    keep = dp.raw_data.copy()
    vr = rng.choice([None, [2.8, 3.5], [2.55, 3.61], [3.0, 3.2]])
    res = rng.choice([3, 10, 25])
    ca, da = rng.choice([("charge_capacity", "voltage"), ("charge_capacity", "voltage"), ("voltage", "discharge_capacity"), ("test_time", "test_time")])
    full = rng.random() < 0.4
    if full:
        r = H.run(dp.structure, v_range=vr, resolution=res, diagnostic_resolution=11, charge_axis=ca, discharge_axis=da, exclude_cycles=excl)
    else:
        r = H.run(dp.interpolate_cycles, v_range=vr, resolution=res, charge_axis=ca, discharge_axis=da, exclude_cycles=excl)
    want = {}
    for c in ids:
        if c in diag or (excl and c in excl):
            continue
        for st in sorted({x["step_index"] for x in cyc[c]}):
            rs = [x for x in cyc[c] if x["step_index"] == st]
            if len(rs) > 1:
                want[(c, "charge" if classify(H, rs, dfl) else "discharge", st)] = rs
    if not want:
        return
    H.ensure("no error", r.ok, r)
    H.ensure("raw data unchanged", dp.raw_data.equals(keep) and list(dp.raw_data.columns) == list(keep.columns))
    out = dp.structured_data if full else r.value
    if wf:
        hit = [1 for c in ids if c not in diag for st in {x["step_index"] for x in cyc[c]} for rs in [[x for x in cyc[c] if x["step_index"] == st]]
               if any(not math.isnan(x["_wf_dis_cap"]) for x in rs) and not classify(H, rs, True)]
        hit2 = [1 for c in ids if c not in diag for st in {x["step_index"] for x in cyc[c]} for rs in [[x for x in cyc[c] if x["step_index"] == st]]
                if any(not math.isnan(x["_wf_dis_cap"]) for x in rs) and classify(H, rs, True)]
        da = "test_time" if hit else da
        ca = "test_time" if hit2 else ca
    groups = {}
    for key, g in out.assign(step_type=out["step_type"].astype(str), step_index=out["step_index"].astype(int)).groupby(["cycle_index", "step_type", "step_index"]):
        groups[key] = g
    H.ensure("exactly the charge and discharge steps of the regular cycles", set(groups) == set(want), (sorted(groups), sorted(want)))
    for key, rs in want.items():
        ax = ca if key[1] == "charge" else da
        rg = {"voltage": vr or [2.8, 3.5], "test_time": [rs[0]["test_time"], rs[-1]["test_time"]]}.get(ax) or \
            [min(x[ax] for x in rows), max(x[ax] for x in rows)]
        check_points(H, "cycle step", groups[key], rs, ax, rg, res, COLS)
    if full:
        H.ensure("parameters stored", dp.structuring_parameters == {"v_range": vr, "resolution": res, "diagnostic_resolution": 11, "nominal_capacity": 1.1,
                                                                   "full_fast_charge": 0.8, "charge_axis": dp.structuring_parameters.get("charge_axis"),
                                                                   "discharge_axis": dp.structuring_parameters.get("discharge_axis")}, dp.structuring_parameters)
        H.ensure("summary stored", dp.structured_summary.equals(dp.summarize_cycles()))
        H.ensure("diagnostics stored only with a configuration", (dp.diagnostic_data is not None) == bool(diag) and (dp.diagnostic_summary is not None) == bool(diag))
        dp.unstructure()
        H.ensure("unstructure removes the results", dp.structured_data is None and dp.structured_summary is None and dp.diagnostic_data is None
                 and dp.diagnostic_summary is None and dp.structuring_parameters == {} and not dp.is_structured)


def stage(name, log, result):
    """stand-in for a stage of the pipeline: records how it was called"""
    def run(*a, **k):
        log.append((name, a, k))
        return result
    return run


PARAMS = {"interpolate_cycles": ["v_range", "resolution", "charge_axis", "discharge_axis", "exclude_cycles"],
          "interpolate_diagnostic_cycles": ["time_resolution", "voltage_resolution", "v_delta_min"],
          "summarize_cycles": ["nominal_capacity", "full_fast_charge", "cycle_complete_discharge_ratio", "cycle_complete_vmin", "cycle_complete_vmax", "error_threshold"],
          "summarize_diagnostic": []}
DEFAULTS = {"v_range": None, "resolution": 1000, "diagnostic_resolution": 500, "nominal_capacity": 1.1, "full_fast_charge": 0.8,
            "charge_axis": "charge_capacity", "discharge_axis": "voltage", "exclude_cycles": None}


@harness("C14", "structure_stages", conc=120, targets=[B, A])
def h_stages(H):
    """structure(): every stage runs once with the requested parameters, its result is stored, the request is recorded; unstructure() removes it all"""
    base = H.mod(B)
    cls = H.mod(A).ArbinDatapath
    dp = cls.__new__(cls)
    dp.raw_data = None
    dp._is_legacy = False
    diag = H.choice("diagnostic", [False, True])
    dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig({"reset": [2]}) if diag else None
    log = []
    for n in PARAMS:
        setattr(dp, n, stage(n, log, ("result of", n)))
    for f in ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"):
        setattr(dp, f, None)
    req = {"v_range": (H.real("v0", 0, 5), H.real("v1", 0, 5)), "resolution": H.int("res", 2, 10 ** 6), "diagnostic_resolution": H.int("dres", 2, 10 ** 6),
           "nominal_capacity": H.real("nom", 0, 100), "full_fast_charge": H.real("ffc", 0, 2), "charge_axis": H.text("ca", pool=["voltage", "test_time"]),
           "discharge_axis": H.text("da", pool=["voltage", "discharge_capacity"]), "exclude_cycles": [H.int("ex", 0, 1000)]}
    given = H.choice("given", ["all", "none"] + list(req))
    args = dict(req) if given == "all" else {} if given == "none" else {given: req[given]}
    H.cover("inputs")
    r = H.run(dp.structure, **args)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    p = dict(DEFAULTS, **args)
    names = sorted(c[0] for c in log)
    want = ["interpolate_cycles", "summarize_cycles"] + (["interpolate_diagnostic_cycles", "summarize_diagnostic"] if diag else [])
    H.ensure("every stage runs once, diagnostics only when configured", names == sorted(want), names)
    for n, a, k in log:
        kw = dict(zip(PARAMS[n], a), **k)
        exp = {"interpolate_cycles": {x: p[x] for x in PARAMS["interpolate_cycles"]},
               "summarize_cycles": {x: p[x] for x in ("nominal_capacity", "full_fast_charge")},
               "interpolate_diagnostic_cycles": {"time_resolution": p["diagnostic_resolution"], "voltage_resolution": p["diagnostic_resolution"]},
               "summarize_diagnostic": {}}[n]
        for x, v in exp.items():
            H.ensure("requested %s reaches its stage" % x, (x in kw and H.eq(kw[x], v)) or (x not in kw and v is None), (n, x, kw))
        H.ensure("no other setting is passed", set(kw) <= set(exp), (n, kw))
    for f, n in (("structured_data", "interpolate_cycles"), ("structured_summary", "summarize_cycles")):
        H.ensure("results stored", getattr(dp, f) == ("result of", n), getattr(dp, f))
    for f, n in (("diagnostic_data", "interpolate_diagnostic_cycles"), ("diagnostic_summary", "summarize_diagnostic")):
        H.ensure("diagnostic results stored when configured", getattr(dp, f) == (("result of", n) if diag else None), getattr(dp, f))
    got = dp.structuring_parameters
    for x in p:
        if x != "exclude_cycles":
            H.ensure("the request is recorded", x in got and H.eq(got[x], p[x]), (x, got))
    r = H.run(dp.unstructure)
    H.ensure("unstructure: no error", r.ok, r)
    H.ensure("unstructure removes the results", dp.structured_data is None and dp.structured_summary is None and dp.diagnostic_data is None
             and dp.diagnostic_summary is None and dp.structuring_parameters == {})


@harness("C14", "interpolate_diagnostic", proof=False, conc=80, targets=[B, A])
def h_diag(H):
    rng = H.rng
    rows = gen_rows(H, ncyc=4)
    if rng.random() < 0.5:      # a step index repeated later in the same cycle
        for c, rs in by_cycle(rows).items():
            last = rs[-1]["step_index"]
            for x in rs:
                if x["step_index"] == last and last > 2:
                    x["step_index"] = 1
    cyc = by_cycle(rows)
    ids = list(cyc)
    diag = sorted(rng.sample(ids, rng.randint(1, len(ids))))
    h = len(diag) // 2
    cfg = {k: v for k, v in (("hppc_1", diag[:h]), ("reset", diag[h:])) if v}
    dp = datapath(H, rows, index=rng.choice([None, list(range(5, 5 + len(rows))), [2 * k for k in range(len(rows))][::-1]]))
    dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig(cfg)
    keep = dp.raw_data.copy()
    tr, vr = rng.choice([(5, 8), (12, 6)])
    vmin = rng.choice([0.001, 0.3])
    given = {"time_resolution": tr, "voltage_resolution": vr, "v_delta_min": vmin}
    if rng.random() < 0.1:          # documented defaults
        given, tr, vr, vmin = {}, 1000, 1000, 0.001
    elif vmin == 0.001:
        del given["v_delta_min"]
    fb = rng.choice([None, None, (2.6, 3.5)])
    runs = {}
    for c in diag:
        k, prev = 0, None
        for x in cyc[c]:
            if x["step_index"] != prev:
                k += 1
                prev = x["step_index"]
            runs.setdefault((c, k), []).append(x)
    want = {k: rs for k, rs in runs.items() if len(rs) > 1}
    if not want:
        return
    r = H.run(dp.interpolate_diagnostic_cycles, **given, **({"dv_fallback": fb} if fb else {}))
    H.ensure("no error", r.ok, r)
    H.ensure("raw data unchanged", dp.raw_data.equals(keep) and list(dp.raw_data.columns) == list(keep.columns))
    out = r.value
    groups = dict(list(out.groupby(["cycle_index", "step_index_counter"])))
    H.ensure("every run of a step of a diagnostic cycle once", set(groups) == set(want), (sorted(groups), sorted(want)))
    for (c, k), rs in want.items():
        g = groups[(c, k)]
        order = list(dict.fromkeys(x["step_index"] for x in cyc[c]))
        H.ensure("labels of the run", set(g["cycle_type"].astype(str)) == {"hppc_1" if c in diag[:h] else "reset"} and set(g["step_index"]) == {rs[0]["step_index"]}
                 and set(g["step_type"].astype(int)) == {order.index(rs[0]["step_index"])}, (c, k))
        vs = [x["voltage"] for x in rs]
        dv = max(vs) - min(vs)
        H.assume(abs(dv - vmin) > 1e-9)
        if dv < vmin:
            ax, rg, n = "test_time", [rs[0]["test_time"], rs[-1]["test_time"]], tr
        else:
            ax, rg, n = "voltage", list(fb) if fb and c not in diag[:h] else [min(vs), max(vs)], vr
        check_points(H, "diagnostic run", g, rs, ax, rg, n, COLS)
        if ax == "voltage" and len(set(vs)) == len(vs):
            g2 = g.sort_values("voltage")
            q, v, d, e = (g2[x].astype(float).tolist() for x in ("discharge_capacity", "voltage", "discharge_dQdV", "charge_dQdV"))
            q2 = g2["charge_capacity"].astype(float).tolist()
            for j in range(1, len(q)):
                w, w2 = (q[j] - q[j - 1]) / (v[j] - v[j - 1]), (q2[j] - q2[j - 1]) / (v[j] - v[j - 1])
                H.ensure("dQ/dV ratio of differences", near(d[j], w, 1e-2) and near(e[j], w2, 1e-2), (d[j], w, e[j], w2))
