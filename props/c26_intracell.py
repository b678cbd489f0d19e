"""C26: electrode fitting of full-cell diagnostic cycles (intracell analysis V2)."""
import contextlib

from vc.harness import harness
from vc.values import and_, or_, not_, implies

IA = "beep.features.intracell_analysis_v2"
IL = "beep.features.intracell_losses_v2"
VOLTS = ["4.2", "4.1", "4.0", "3.9", "3.8", "3.7", "3.6", "3.5", "3.4", "3.3", "3.2", "3.1", "3.0", "2.9", "2.8", "2.7"]
FIGURES = ["%s_%s_FC%sV" % (e, k, v.replace(".", "p")) for e in ("pe", "ne") for k in ("voltage", "soc") for v in VOLTS] + ["Q_fc", "Q_pe", "Q_ne", "Q_li"]
NAMES = ["rmse_error", "LLI_opt", "Q_pe_opt", "Q_ne_opt", "x_NE_2"] + FIGURES

META = {
    "title": "Electrode fitting emulates the cell and reports each electrode's figures",
    "statement": "In intracell analysis V2 (charge steps, one negative electrode material) the candidate profile of a cycle is the voltage of that cycle's first diagnostic step (configured cycle type, points below 4.2 V with positive capacity), linearly interpolated at 1001 evenly spaced charge capacities from 0 to the largest one (2.7 V before the first point). For given LLI, q_pe and q_ne the emulated electrodes are the reference curves with capacity SOC/100 x q_pe, and SOC/100 x q_ne + LLI, on 1001 evenly spaced capacities covering both, linearly interpolated and missing outside each curve; the emulated cell is positive minus negative voltage, kept only from 2.7 to 4.2 V, with capacities counted from the sample of lowest kept voltage, and is compared with the measured profile at 1001 evenly spaced capacities of the measured range. The fitting error is the mean, over the measured points, of the standardised distance to the nearest emulated point in the representation asked for (V-Q, dVdQ or dQdV, otherwise V-Q), for measured and synthetic profiles alike, and 100 where they cannot be compared. The electrode figures are each electrode's voltage and state of charge at the sample whose full-cell voltage is nearest to 4.2, 4.1, ... 2.7 V, the capacity of the cell at 4.2 V, and the capacity ranges of the positive electrode, the negative electrode and both together. A fit hands the cycle's profile, the reference curves and the bounds given to the optimiser and reports its error and parameters followed by the figures, under the cycle's index; the intracell features have one such row per diagnostic cycle of the requested type with capacity above the threshold (or the first two as diag_0 and diag_1). Inputs are unchanged.",
    "over": ["inputs"],
    "qtext": "every pair of reference curves, every measured profile, every LLI, q_pe, q_ne, every error type, bounds and cycle",
    "why": "none of the repository's own tests of this module is reliable (they compare optimiser results to many digits); 68 near-identical expressions for the electrode figures, the choice of error and the assembly of features are never compared with an independent calculation",
    "files": ["beep/features/intracell_analysis_v2.py", "beep/features/intracell_losses_v2.py"],
    "mechanism": [{"name": "get_electrode_info_ah", "where": "beep/features/intracell_analysis_v2.py:1000"},
                  {"name": "IntracellAnalysisV2.halfcell_degradation_matching_ah", "where": "beep/features/intracell_analysis_v2.py:175"},
                  {"name": "IntracellAnalysisV2.intracell_values_wrapper_ah", "where": "beep/features/intracell_analysis_v2.py:808"},
                  {"name": "IntracellCyclesV2.create_features", "where": "beep/features/intracell_losses_v2.py:81"}],
    "observe": ["get_electrode_info_ah", "IntracellAnalysisV2.intracell_values_wrapper_ah", "IntracellAnalysisV2._get_error_from_degradation_matching_ah",
                "IntracellAnalysisV2._get_error_from_synthetic_fitting_ah", "IntracellCyclesV2.features", "IntracellFeaturesV2.features"],
    "level": "exploration",
    "level_note": "electrode figures: obligations discharged for all real voltages and capacities at 2 present samples, alone or beside a sample missing in either electrode at either end (bounded in samples); assembly of the fit and of the features: discharged for all optimiser results, bounds and figures, the optimiser itself being a stand-in; emulation, profiles and errors: bounded stand-in on generated curves against an independent calculation (scipy interpolation and distances are outside the verifier's reach)",
    "assumptions": ["scipy's differential_evolution returns some parameters within the bounds (no claim that they are the best)", "float arithmetic as real arithmetic in the discharged obligations"],
    "bounded": ["electrode figures: 2 present samples (and one missing) symbolic, up to 40 samples generated", "emulation and errors: generated reference curves of 1001 points (the number the code requires)", "no claim on blending with a second negative material, on discharge steps (step_type 1), or on ties of the nearest full-cell voltage"],
}


@contextlib.contextmanager
def swapped(*places):
    """replace callees by their contracts while the code runs"""
    none = object()
    old = [(o, k, getattr(o, k, none)) for o, k, v in places]
    for o, k, v in places:
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in reversed(old):
            delattr(o, k) if v is none else setattr(o, k, v)


# ------------------------------------------------------------------ electrode figures
def nearest(H, fc, v):
    best = None
    for k in range(len(fc)):
        if fc[k] is None:
            continue
        d = abs(fc[k] - v)
        if best is None or H.case(d < best[1]):
            best = (k, d)
    return best[0]


def figures(H, pe, ne, q):
    """independent calculation; None = missing"""
    from fractions import Fraction
    n = len(q)
    fc = [None if pe[k] is None or ne[k] is None else pe[k] - ne[k] for k in range(n)]
    out = {}

    def span(xs):
        have = [q[k] for k in range(n) if xs[k] is not None]
        lo = hi = have[0]
        for x in have[1:]:
            if H.case(x < lo):
                lo = x
            if H.case(x > hi):
                hi = x
        return lo, hi
    sp, sn, sf = span(pe), span(ne), span(fc)
    for v in VOLTS:
        k = nearest(H, fc, Fraction(v) if H.sym else float(v))
        nm = v.replace(".", "p")
        out["pe_voltage_FC%sV" % nm], out["ne_voltage_FC%sV" % nm] = pe[k], ne[k]
        out["pe_soc_FC%sV" % nm] = (q[k] - sp[0]) / (sp[1] - sp[0])
        out["ne_soc_FC%sV" % nm] = (q[k] - sn[0]) / (sn[1] - sn[0])
        if v == "4.2":
            out["Q_fc"] = q[k]
    out["Q_pe"], out["Q_ne"], out["Q_li"] = sp[1] - sp[0], sn[1] - sn[0], sf[1] - sf[0]
    return out


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


@harness("C26", "electrode_figures", conc=150, targets=[IA], budget=250)
def h_info(H):
    m = H.mod(IA)
    if H.sym:
        from fractions import Fraction
        gap = H.choice("missing", [None, (0, "p"), (0, "n"), (2, "p"), (2, "n")])   # which cell of three is missing
        n = 2 if gap is None else 3
        pe = [None if gap == (k, "p") else H.real("p%d" % k, 0, 6) for k in range(n)]
        ne = [None if gap == (k, "n") else H.real("n%d" % k, 0, 3) for k in range(n)]
        q = [H.real("q%d" % k, -10, 10) for k in range(n)]
        for k in range(1, n):
            H.assume(q[k - 1] < q[k])
        i, j = [k for k in range(n) if gap is None or k != gap[0]]
        for v in VOLTS:      # no ties
            H.assume(not_(abs(pe[i] - ne[i] - Fraction(v)) == abs(pe[j] - ne[j] - Fraction(v))))
    else:
        rng = H.rng
        n = rng.choice([2, 3, 5, 40])
        q = sorted(rng.uniform(-1, 6) for _ in range(n))
        pe = sorted(rng.uniform(2.9, 4.4) for _ in range(n))
        ne = sorted((rng.uniform(0.0, 0.8) for _ in range(n)), reverse=True)
        if rng.random() < 0.3:
            rng.shuffle(pe)
        if n > 4:
            a, b = rng.randint(0, n // 3), rng.randint(0, n // 3)
            left, right = rng.choice([(ne, pe), (pe, ne), (ne, ne), (pe, pe)])     # which electrode is cut at which end
            for k in range(n):
                if k < a:
                    left[k] = None
                if k >= n - b:
                    right[k] = None
                if rng.random() < 0.1 and sum(x is not None and y is not None for x, y in zip(pe, ne)) > 4:
                    pe[k] = None
    nan = lambda xs: [float("nan") if x is None else x for x in xs]
    P, N = H.pframe({"Q_aligned": q, "Voltage_aligned": nan(pe)}), H.pframe({"Q_aligned": q, "Voltage_aligned": nan(ne)})
    H.cover("inputs")
    r = H.run(m.get_electrode_info_ah, P, N)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    got = r.value
    H.ensure("exactly the documented figures in order", list(got.columns) == [f for f in FIGURES] and len(got) == 1, list(got.columns))
    want = figures(H, pe, ne, q)
    for f in FIGURES:
        g = got[f].iloc[0]
        H.ensure("%s" % f, H.eq(g, want[f]) if H.sym else close(g, want[f]), (f, g, want[f]))




# ------------------------------------------------------------------ assembly of a fit
class Opt:
    def __init__(self, x, fun):
        self.x, self.fun, self.success, self.message = x, fun, True, "done"


def analysis(H, m, **kw):
    import os
    import tempfile
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        for n in ("pe", "ne"):
            with open(os.path.join(d, n), "w") as f:
                f.write("SOC_aligned,Voltage_aligned\n0,3.0\n100,4.0\n")
        a = m.IntracellAnalysisV2(os.path.join(d, "pe"), os.path.join(d, "ne"))
    a.pe_pristine, a.ne_1_pristine, a.ne_2_pristine_pos, a.ne_2_pristine_neg = "PE", "NE", "NE2+", "NE2-"
    for k, v in kw.items():
        setattr(a, k, v)
    return a


@harness("C26", "fit", conc=60, targets=[IA])
def h_fit(H):
    m = H.mod(IA)
    how = H.choice("which", ["measured", "synthetic"])
    cyc = H.choice("cycle", [0, 37, 142])
    lo = [H.real("lo%d" % i, -5, 5) for i in range(4)]
    hi = [H.real("hi%d" % i, -5, 5) for i in range(4)]
    given = H.choice("bounds", [False, True])
    bounds = tuple(zip(lo, hi)) if given else None
    x = [H.real("x%d" % i, -5, 5) for i in range(4)]
    fun = H.real("fun", 0, 100)
    a = analysis(H, m)
    log = []

    def evolve(func, bounds, args=(), **k):
        log.append(("optimise", func, bounds, args))
        return Opt(list(x), fun)

    def profile(struct, index):
        log.append(("profile", struct, index))
        return "PROFILE"

    def dqdv(xx, *params):
        log.append(("emulate", xx, params))
        return ("PE_OUT", "NE_OUT", "DQR", "DQE", "REAL", "EMU")

    def info(p, n):
        log.append(("figures", p, n))
        return H.pframe({f: [v] for f, v in vals.items()})
    vals = {f: H.real("f_" + f, -10, 10) for f in FIGURES}
    a.process_beep_cycle_data_for_candidate_halfcell_analysis_ah = profile
    a.get_dqdv_over_v_from_degradation_matching_ah = dqdv
    H.cover("run")
    default = ((0, 3), (2.5, 6.5), (2.5, 6.5), (1, 1))
    import scipy.optimize
    with swapped((m, "differential_evolution", evolve), (scipy.optimize, "differential_evolution", evolve), (m, "get_electrode_info_ah", info)):
        args = (bounds,) if given else ()
        r = H.run(a.intracell_values_wrapper_ah, cyc, "STRUCT", *args) if how == "measured" else H.run(a.solve_emulated_degradation, "PROFILE", *args)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    opt = [c for c in log if c[0] == "optimise"]
    H.ensure("one optimisation", len(opt) == 1)
    b = opt[0][2]
    H.ensure("bounds as given, else the documented ones", len(b) == 4 and all(and_(H.eq(p[0], w[0]), H.eq(p[1], w[1])) if H.sym else p[0] == w[0] and p[1] == w[1] for p, w in zip(b, bounds or default)), b)
    H.ensure("reference curves and profile are fitted", tuple(opt[0][3]) == ("PE", "NE", "NE2+", "NE2-", "PROFILE"), opt[0][3])
    if how == "synthetic":
        H.ensure("optimiser result returned", H.eq(r.value.fun, fun) and all(H.eq(p, w) for p, w in zip(r.value.x, x)), r)
        return
    H.ensure("profile of the requested cycle", [c[1:] for c in log if c[0] == "profile"] == [("STRUCT", cyc)], log)
    loss, prof = r.value
    H.ensure("filed under the cycle", list(loss) == [cyc] and list(prof) == [cyc], (list(loss), list(prof)))
    em = [c for c in log if c[0] == "emulate"]
    H.ensure("emulated with the fitted parameters", len(em) == 1 and tuple(em[0][2]) == ("PE", "NE", "NE2+", "NE2-", "PROFILE") and all(H.eq(p, w) for p, w in zip(em[0][1], x)), em)
    H.ensure("figures of the emulated electrodes", [c[1:] for c in log if c[0] == "figures"] == [("PE_OUT", "NE_OUT")], log)
    got = list(loss[cyc])
    want = [fun] + x + [vals[f] for f in FIGURES]
    H.ensure("error, parameters, figures in order", len(got) == len(want))
    for g, w, nme in zip(got, want, NAMES):
        H.ensure("reported " + nme, H.eq(g, w), (nme, g, w))
    H.ensure("profiles", prof[cyc] == {"NE_zeroed": "NE_OUT", "PE_zeroed": "PE_OUT", "dQdV_over_v_real": "DQR", "dQdV_over_v_emulated": "DQE", "df_real_interped": "REAL",
                                       "emulated_full_cell_interped": "EMU", "real_cell_candidate_charge_profile_aligned": "PROFILE"}, prof)


@harness("C26", "features", conc=80, targets=[IL])
def h_feat(H):
    import pandas as pd
    m = H.mod(IL)
    which = H.choice("class", ["IntracellCyclesV2", "IntracellFeaturesV2"])
    cycles = [1, 36, 139, 240]
    kinds = [H.choice("type%d" % i, ["rpt_0.2C", "rpt_1C"]) for i in range(4)]
    caps = [H.choice("cap%d" % i, [0.0, 4.1]) if i < 2 else 3.9 for i in range(4)]
    vals = {c: {n: H.real("v%d_%s" % (c, n), -10, 10) if n in ("rmse_error", "x_NE_2", "pe_soc_FC3p5V", "ne_voltage_FC2p7V", "Q_li") else float(100 * c + j) for j, n in enumerate(NAMES)} for c in cycles}
    hyper = {"diagnostic_cycle_type": H.choice("asked", ["rpt_0.2C", "rpt_1C"]), "step_type": 0, "anode_file": "anode.csv", "cathode_file": "cathode.csv"}
    log = []

    class Fit:
        THRESHOLD = 0.0

        def __init__(self, pe, ne, cycle_type="rpt_0.2C", step_type=0, error_type="V-Q", ne_2pos_file=None, ne_2neg_file=None):
            log.append((pe, ne, cycle_type, step_type))
            self.cycle_type = cycle_type

        def intracell_values_wrapper_ah(self, cycle_index, cell_struct, degradation_bounds=None):
            log.append((cycle_index, cell_struct, degradation_bounds))
            from vc import cells
            return {cycle_index: cells.arr([vals[cycle_index][n] for n in NAMES])}, {cycle_index: {}}
    dp = type("DP", (), {})()
    dp.diagnostic_summary = pd.DataFrame({"cycle_index": cycles, "cycle_type": kinds, "discharge_capacity": caps})
    f = getattr(m, which)(None, dict(hyper))
    f.datapath = dp
    want = [c for c, k, q in zip(cycles, kinds, caps) if k == hyper["diagnostic_cycle_type"] and q > 0]
    if which == "IntracellFeaturesV2":
        if len(want) < 2:
            return
        want = want[:2]
    if not want:
        return
    H.cover("run")
    with swapped((m, "IntracellAnalysisV2", Fit), (H.mod(IA), "IntracellAnalysisV2", Fit)):
        r = H.run(f.create_features)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("reference files and cycle type as requested", log[0] == ("cathode.csv", "anode.csv", hyper["diagnostic_cycle_type"], 0), log[0])
    H.ensure("one fit per qualifying diagnostic cycle", [c[0] for c in log[1:]] == want and all(c[1] is dp and c[2] is None for c in log[1:]), log)
    out = f.features
    if which == "IntracellCyclesV2":
        H.ensure("one row per cycle", list(out.index) == want and list(out.columns) == NAMES, (list(out.index), list(out.columns)))
        for c in want:
            for n in NAMES:
                H.ensure("value of its own cycle", H.eq(out.loc[c, n], vals[c][n]), (c, n, out.loc[c, n]))
    else:
        H.ensure("first two diagnostics", list(out.columns) == ["diag_%d_%s" % (i, n) for i in (0, 1) for n in NAMES] and len(out) == 1, list(out.columns))
        for i, c in enumerate(want):
            for n in NAMES:
                H.ensure("value of its own diagnostic", H.eq(out["diag_%d_%s" % (i, n)].iloc[0], vals[c][n]), (c, n))


# ------------------------------------------------------------------ bounded: emulation, profile, errors
def curves(H):
    import numpy as np
    import pandas as pd
    rng = H.rng
    n = 1001
    soc = np.linspace(0, 100, n)
    pe = 3.0 + 1.35 * (soc / 100) ** rng.uniform(0.4, 0.9) + 0.03 * np.sin(soc / 100 * 9)
    pe = np.sort(pe)
    ne = np.sort(0.05 + 0.9 * np.exp(-soc / rng.uniform(6, 15)) + 0.1 * (1 - soc / 100))[::-1]
    return pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": pe}), pd.DataFrame({"SOC_aligned": soc, "Voltage_aligned": ne})


def lin(x, xp, fp):
    """linear interpolation, missing outside; xp increasing"""
    import numpy as np
    return np.interp(x, xp, fp, left=np.nan, right=np.nan)


def same(a, b, tol=1e-7):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    # a point within rounding of the edge of a curve may be missing in one of them
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def edge(a, b):
    """both calculations, allowing a missing value at the very end of a curve (rounding)"""
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    d = np.isnan(a) != np.isnan(b)
    return d.sum() <= 2 and np.allclose(a[~d], b[~d], rtol=1e-7, atol=1e-7, equal_nan=True)


def emulate(pe, ne, lli, qp, qn, real):
    import numpy as np
    qpe, qne = pe["SOC_aligned"].values / 100 * qp, ne["SOC_aligned"].values / 100 * qn + lli
    grid = np.linspace(min(qpe.min(), qne.min()), max(qpe.max(), qne.max()), 1001)
    vp, vn = lin(grid, qpe, pe["Voltage_aligned"].values), lin(grid, qne, ne["Voltage_aligned"].values)
    fc = vp - vn
    with np.errstate(invalid="ignore"):
        keep = (fc >= 2.7) & (fc <= 4.2)
    if not keep.any():
        return None
    zero = grid[np.where(keep)[0][np.argmin(fc[keep])]]
    rq, rv = real["Q_aligned"].values, real["Voltage_aligned"].values
    ok = ~np.isnan(rv)
    x = np.linspace(rq[ok].min(), rq[ok].max(), 1001)
    return {"grid": grid, "vp": vp, "vn": vn, "zero": zero, "x": x, "real": lin(x, rq[ok], rv[ok]), "emu": lin(x, (grid - zero)[keep], fc[keep])}


@harness("C26", "emulation", proof=False, conc=80, targets=[IA])
def h_emu(H):
    import numpy as np
    import pandas as pd
    import warnings
    warnings.simplefilter("ignore")
    rng = H.rng
    m = H.mod(IA)
    d = H.tmpdir()
    pe, ne = curves(H)
    pe.to_csv(d + "/pe.csv")
    ne.to_csv(d + "/ne.csv")
    a = m.IntracellAnalysisV2(d + "/pe.csv", d + "/ne.csv", error_type=rng.choice(["V-Q", "dVdQ", "dQdV", "other"]))
    pe, ne = a.pe_pristine.copy(), a.ne_1_pristine.copy()
    # a measured cycle: the cell itself, slightly different
    true = (rng.uniform(0, 0.8), rng.uniform(4.5, 5.5), rng.uniform(4.5, 5.5))
    nq = rng.choice([50, 300])
    base = emulate(pe, ne, *true, real=pd.DataFrame({"Q_aligned": [0.0, 1.0], "Voltage_aligned": [3.0, 4.0]}))
    if base is None:
        return
    fc = base["vp"] - base["vn"]
    with np.errstate(invalid="ignore"):
        keep = (fc >= 2.7) & (fc <= 4.21)
    gq, gv = (base["grid"] - base["zero"])[keep], fc[keep]
    if len(gq) < 60 or gq.max() < 1.0:
        return
    idx = np.unique(np.linspace(0, len(gq) - 1, nq).astype(int))
    cq, cv = gq[idx] + rng.choice([0.0, 0.05]), gv[idx]
    if rng.random() < 0.5:
        cv = np.minimum(cv + 0.01, 4.25)
    rows, mine = [], rng.choice([36, 141])
    for ci, kind in ((1, "rpt_0.2C"), (36, "rpt_0.2C"), (36, "rpt_1C"), (141, "rpt_0.2C"), (141, "hppc")):
        for st in (0, 1):
            own = ci == mine and kind == "rpt_0.2C" and st == 0
            for k in range(len(cq) if own else 12):
                rows.append({"cycle_index": ci, "cycle_type": kind, "step_type": st, "voltage": cv[k] if own else rng.uniform(2.8, 4.1),
                             "charge_capacity": cq[k] if own else rng.uniform(0, 9), "discharge_capacity": rng.uniform(0, 9)})
    blocks = pd.DataFrame(rows)
    if rng.random() < 0.5:
        blocks.index = range(100, 100 + len(blocks))
    dp = type("DP", (), {})()
    dp.diagnostic_data = blocks
    keepdata = blocks.copy()
    r = H.run(a.process_beep_cycle_data_for_candidate_halfcell_analysis_ah, dp, mine)
    H.ensure("profile: no error", r.ok, r)
    real = r.value
    sel = (cv < 4.2) & (cq > 0)
    x = np.linspace(0, cq[sel].max(), 1001)
    H.ensure("candidate profile: capacities", same(real["Q_aligned"], x), real["Q_aligned"].iloc[[0, -1]].tolist())
    wantv = np.where(x < cq[sel].min(), 2.7, np.interp(x, cq[sel], cv[sel]))
    H.ensure("candidate profile: voltages", same(real["Voltage_aligned"], wantv), None)
    H.ensure("structured data unchanged", blocks.equals(keepdata))
    # emulation with other parameters
    lli, qp, qn = rng.uniform(0, 0.8), rng.uniform(4.3, 5.6), rng.uniform(4.3, 5.6)
    if rng.random() < 0.15:
        lli = 12.0                       # no overlap: no cell
    args = ([lli, qp, qn, 1.0], a.pe_pristine, a.ne_1_pristine, a.ne_2_pristine_pos, a.ne_2_pristine_neg, real)
    w = emulate(pe, ne, lli, qp, qn, real)
    got = {}
    if w is None:
        for f in (a._get_error_from_degradation_matching_ah, a._get_error_from_synthetic_fitting_ah):
            e = H.run(f, *args)
            H.ensure("cannot be compared: error 100", e.ok and e.value == 100, e)
        return
    r = H.run(a.halfcell_degradation_matching_ah, *args)
    H.ensure("emulation: no error", r.ok, r)
    p, n, ra, em = r.value
    H.ensure("electrode capacities counted from the lowest kept voltage", same(p["Q_aligned"], w["grid"] - w["zero"]) and same(n["Q_aligned"], w["grid"] - w["zero"]), (lli, qp, qn))
    H.ensure("positive electrode scaled to q_pe", edge(p["Voltage_aligned"], w["vp"]), (lli, qp, qn))
    H.ensure("negative electrode scaled to q_ne and shifted by LLI", edge(n["Voltage_aligned"], w["vn"]), (lli, qp, qn))
    H.ensure("measured profile on its own capacities", same(ra["Q_aligned"], w["x"]) and edge(ra["Voltage_aligned"], w["real"]))
    H.ensure("emulated cell on the measured capacities", same(em["Q_aligned"], w["x"]) and edge(em["Voltage_aligned"], w["emu"]), (lli, qp, qn))
    H.ensure("inputs unchanged", a.pe_pristine.equals(pe) and a.ne_1_pristine.equals(ne))
    if np.isnan(em["Voltage_aligned"]).all():
        return
    # errors
    kind = a.error_type
    try:
        if kind == "dVdQ":
            A, B = [pd.DataFrame({"x": f["Q_aligned"], "y": pd.Series(np.gradient(f["Voltage_aligned"], f["Q_aligned"])).ewm(com=0.1).mean()}).dropna() for f in (ra, em)]
            A, B = A[A.x > 0.5], B[B.x > 0.5]
        elif kind == "dQdV":
            grid = np.linspace(2.7, 4.2, 1001)
            res = []
            for f in (ra, em):
                s = pd.Series(np.gradient(f["Q_aligned"], f["Voltage_aligned"])).ewm(com=0.1).mean()
                v = f["Voltage_aligned"]
                o = v.notna()
                from scipy.interpolate import interp1d
                res.append(pd.DataFrame({"x": grid, "y": np.nan_to_num(interp1d(v[o], s[o], bounds_error=False, fill_value=0)(grid))}))
            A, B = res
            if not (np.isfinite(A.y).all() and np.isfinite(B.y).all()):
                return
        else:
            A, B = [pd.DataFrame({"x": f["Q_aligned"], "y": f["Voltage_aligned"]}).dropna() for f in (ra, em)]
        A, B = A.values, B.values
        if len(A) < 2 or len(B) < 2:
            return
        var = np.var(np.vstack([A, B]), axis=0, ddof=1)
        D = np.sqrt((((A[:, None, :] - B[None, :, :]) ** 2) / var).sum(axis=2)).min(axis=1).mean()
    except ValueError:
        return
    if not np.isfinite(D):
        return
    for f, lab in ((a._get_error_from_degradation_matching_ah, "measured"), (a._get_error_from_synthetic_fitting_ah, "synthetic")):
        e = H.run(f, *args)
        H.ensure("%s profile: error in the %s representation" % (lab, kind), e.ok and close(e.value, D, 1e-5), (e, D, kind))
