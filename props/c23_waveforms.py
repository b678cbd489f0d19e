"""C23: drive profiles and rapid charges become waveform files that run the intended power or current."""
import os
from vc.harness import harness
from vc.values import and_, or_, not_

W, MAC = "beep.utils.waveform", "beep.protocol.maccor"

META = {
    "title": "Waveform files run the drive profile or the rapid charge asked for",
    "statement": "A waveform file holds one line per run of equal consecutive values of the given power or current waveform, in order: as long (in samples) as the run, charge for a positive value and discharge otherwise, with the value scaled so that the largest magnitude becomes value_scale (5 decimals), and with the limit, end condition, report and range of the configuration for that direction; a power of zero is held as a current of zero. A driving waveform is the model power of the named velocity profile repeated n_repeats times, its largest magnitude max_profile_power x power_scaling and its limits those of the row; making it does not change what later waveforms get by default. A velocity profile in mph (a mile of 1.6 km), kmph or mps becomes minus the power of inertia, rolling and drag at each sample. A charging waveform is the smooth or stepwise current of the row times the nominal capacity, refused above the maximum c-rate or for another type or a name of 25 characters or more; stepwise and smooth currents run from the start soc to the end soc in the same number of whole seconds, with the smooth one between the c-rate limits, and windows that are not increasing are refused.",
    "over": ["inputs", "histories"],
    "qtext": "every waveform, configuration and parameter row, in any sequence of calls",
    "why": "tests compare row counts and extremes of two shipped profiles; run boundaries, directions at zero, configurations left over from an earlier call and refused meshes are not checked",
    "files": ["beep/utils/waveform.py", "beep/protocol/maccor.py"],
    "mechanism": [{"name": "generate_maccor_waveform_file", "where": "beep/protocol/maccor.py:1439"}, {"name": "insert_driving_parametersv1", "where": "beep/protocol/maccor.py:1319"},
                  {"name": "insert_charging_parametersv1", "where": "beep/protocol/maccor.py:1358"}, {"name": "convert_velocity_to_power_waveform", "where": "beep/utils/waveform.py:10"},
                  {"name": "RapidChargeWave", "where": "beep/utils/waveform.py:63"}],
    "observe": ["waveform files written by generate_maccor_waveform_file, insert_driving_parametersv1 and insert_charging_parametersv1", "values of convert_velocity_to_power_waveform and RapidChargeWave"],
    "level": "proof",
    "level_note": "waveform file, driving and charging waveforms, power model, time axis and mesh check proved for all values of waveforms of up to 4 samples; the numerical curves of RapidChargeWave (PCHIP, fsolve): bounded stand-in",
    "assumptions": ["np.gradient is the documented difference quotient", "pandas groupby, diff and to_csv keep values and order", "waveforms hold no NaN and are not zero throughout"],
    "bounded": ["rapid_curves: random rates and windows", "driving_files: the shipped profiles"],
}

CFG = ["control_mode", "value_scale", "charge_limit_mode", "charge_limit_value", "discharge_limit_mode", "discharge_limit_value", "charge_end_mode", "charge_end_operation", "charge_end_mode_value",
       "discharge_end_mode", "discharge_end_operation", "discharge_end_mode_value", "report_mode", "report_value", "range"]


def config(H, mode, scale):
    dlim, rg = H.choice("modes", [("V", "A"), ("I", "4")])
    c = {"control_mode": mode, "value_scale": scale, "charge_limit_mode": "V", "discharge_limit_mode": dlim, "charge_end_mode": "V", "discharge_end_mode": "V",
         "charge_end_operation": ">=", "discharge_end_operation": "<=", "report_mode": "T", "range": rg}
    for k in ("charge_limit_value", "discharge_limit_value", "charge_end_mode_value", "discharge_end_mode_value", "report_value"):
        c[k] = H.real(k, 0, 10, decimals=None if H.sym else 3)
    return c


def runs(H, vals):
    """maximal runs of equal consecutive values: [first index, length]"""
    out = []
    for i, v in enumerate(vals):
        if i and H.case(H.eq(v, vals[i - 1])):
            out[-1][1] += 1
        else:
            out.append([i, 1])
    return out


def peak(H, vals):
    m = None
    for v in vals:
        a = abs(v)
        if m is None or H.case(a > m):
            m = a
    return m


def shape(H, vals):
    """runs, largest magnitude, sign of every run"""
    rr = runs(H, vals)
    sg = [1 if H.case(vals[i] > 0) else 0 if H.case(H.eq(vals[i], 0)) else -1 for i, _ in rr]
    return rr, peak(H, [vals[i] for i, _ in rr]), sg


def scaled(v, m, scale):
    return abs(v / m * scale)


def check_file(H, path, vals, cfg, kind, shp):
    lines = H.table(path, "\t")
    H.ensure("file written", lines is not None, path)
    if lines is None:
        return
    rr, m, sg = shp
    H.ensure("one line per run", len(lines) == len(rr), (lines, vals))
    if len(lines) != len(rr):
        return
    for ln, (i, k), sign in zip(lines, rr, sg):
        v = vals[i]
        up, zero = sign > 0, sign == 0
        d = "charge" if up else "discharge"
        H.ensure("twelve fields", len(ln) == 12, ln)
        if len(ln) != 12:
            return
        H.ensure("direction of the run", ln[0] == ("C" if up else "D"), (ln, v))
        mode = cfg["control_mode"]
        H.ensure("control mode", ln[1] == ("I" if zero and mode == "P" and kind == "power" else mode), (ln, v))
        H.ensure("scaled magnitude", H.close(ln[2], scaled(v, m, cfg["value_scale"]), 0.00000501), (ln, v, m))
        H.ensure("length of the run", H.eq(ln[5], k), (ln, k))
        H.ensure("limit and end condition of the direction", and_(ln[3] == cfg[d + "_limit_mode"], H.eq(ln[4], cfg[d + "_limit_value"]), ln[6] == cfg[d + "_end_mode"],
                 ln[7] == cfg[d + "_end_operation"], H.eq(ln[8], cfg[d + "_end_mode_value"])), (ln, d))
        H.ensure("report and range", and_(ln[9] == cfg["report_mode"], H.eq(ln[10], cfg["report_value"]), str(ln[11])[0] == cfg["range"][0]), ln)


def samples(H, n, lo=-100, hi=100, name="w"):
    vals = [H.real("%s%d" % (name, i), lo, hi, decimals=None if H.sym else 1, pool=[0.0, 1.0, 1.0, -2.5]) for i in range(n)]
    H.assume(or_(*[not_(H.eq(v, 0)) for v in vals]))
    return vals


@harness("C23", "waveform_file", conc=300, targets=[MAC], budget=200)
def h_file(H):
    kind, mode, n = H.choice("kind", [(k, m, n) for k in ("power", "current") for m in "PI" for n in (1, 2, 3)] + [("power", "P", 4)])
    vals = samples(H, n)
    cfg = config(H, mode, H.real("scale", 0.001, 100, decimals=None if H.sym else 2))
    frame = H.pframe({"time": list(range(n)), kind: list(vals)})
    d = H.tmpdir()
    before = dict(cfg)
    shp = shape(H, vals)
    r = H.run(H.mod(MAC).generate_maccor_waveform_file, frame, "wave", d, cfg)
    H.ensure("no error", r.ok, r)
    if r.ok:
        H.ensure("path of the file", r.value == os.path.join(d, "wave.MWF"), r.value)
        check_file(H, r.value, vals, before, kind, shp)
        H.ensure("configuration unchanged", cfg == before)


DEFAULT = {"control_mode": "P", "value_scale": 1, "charge_limit_mode": "V", "charge_limit_value": 4.2, "discharge_limit_mode": "V", "discharge_limit_value": 2.7, "charge_end_mode": "V",
           "charge_end_operation": ">=", "charge_end_mode_value": 4.25, "discharge_end_mode": "V", "discharge_end_operation": "<=", "discharge_end_mode_value": 2.5, "report_mode": "T",
           "report_value": 3.0, "range": "A"}


class swap:
    def __init__(self, mod, **names):
        self.mod, self.names = mod, names

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.names}
        for k, v in self.names.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


@harness("C23", "driving", conc=200, targets=[MAC], budget=200)
def h_drive(H):
    n = H.choice("n", [2, 3])
    reps = H.choice("repeats", [1, 2, 3] if n == 2 else [1, 2])
    prof, pmax, scaling = H.choice("profile", [("US06", 20, 1.5), ("LA4", 10.5, 0.95)])
    vals = samples(H, n, name="p")
    row = {"discharge_profile": prof, "n_repeats": reps, "max_profile_power": pmax, "power_scaling": scaling}
    for k in ("profile_charge_limit", "discharge_cutoff_voltage"):
        row[k] = H.real(k, 1, 5, decimals=None if H.sym else 2)
    m = H.mod(MAC)
    asked = []
    shp = shape(H, vals * reps)

    def power(path, velocity_units):
        asked.append((path, velocity_units))
        return H.pframe({"time": list(range(n)), "power": list(vals)})
    d = H.tmpdir()
    with swap(m, convert_velocity_to_power_waveform=power):
        r = H.run(m.insert_driving_parametersv1, dict(row), d)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("velocity profile of the row", len(asked) == 1 and os.path.basename(asked[0][0]) == prof + "_velocity_waveform.txt" and os.path.dirname(asked[0][0]).endswith("protocol_schemas") and asked[0][1] == "mph", asked)
    H.ensure("name of the file", r.value == os.path.join(d, "%s_x%d_%dW.MWF" % (prof, reps, int(pmax * scaling))), r.value)
    cfg = dict(DEFAULT, value_scale=pmax * scaling, charge_limit_value=row["profile_charge_limit"], charge_end_mode_value=row["profile_charge_limit"] + 0.05,
               discharge_end_mode_value=row["discharge_cutoff_voltage"] - 0.1)
    lines = H.table(r.value, "\t")
    H.ensure("file written", lines is not None)
    if lines is None:
        return
    loose_file(H, lines, vals * reps, cfg, shp)
    # a later waveform without configuration gets the documented defaults
    w = samples(H, 1, name="later")
    wshp = shape(H, w)
    r2 = H.run(m.generate_maccor_waveform_file, H.pframe({"time": [0], "power": list(w)}), "later", d)
    H.ensure("no error", r2.ok, r2)
    if r2.ok:
        check_file(H, r2.value, w, DEFAULT, "power", wshp)


def loose_file(H, lines, vals, cfg, shp):
    rr, m, sg = shp
    H.ensure("one line per run of the repeated profile", len(lines) == len(rr), (lines, vals))
    if len(lines) != len(rr):
        return
    for ln, (i, k), sign in zip(lines, rr, sg):
        v = vals[i]
        up = sign > 0
        d = "charge" if up else "discharge"
        H.ensure("direction of the run", ln[0] == ("C" if up else "D"), (ln, v))
        H.ensure("power relative to the largest", H.close(ln[2], scaled(v, m, cfg["value_scale"]), 0.00000501), (ln, v, m))
        H.ensure("length of the run", H.eq(ln[5], k), (ln, k))
        H.ensure("limits of the row", and_(ln[3] == "V", H.close(ln[4], cfg[d + "_limit_value"], 1e-9), ln[6] == "V", ln[7] == cfg[d + "_end_operation"], H.close(ln[8], cfg[d + "_end_mode_value"], 1e-9)), (ln, cfg))


@harness("C23", "charging", conc=250, targets=[MAC], budget=200)
def h_charge(H):
    n = H.choice("n", [1, 2, 3])
    kind = H.choice("type", ["smooth", "step", "cc"])
    long = H.choice("name", ["RapidC", "RapidChargeWithLongName"])
    lim = H.choice("limits", [(3.0, 0.2), (2.0, 0.1)])
    smooth = [H.real("s%d" % i, 0.1, 4, decimals=None if H.sym else 1) for i in range(n)]
    step = [H.real("m%d" % i, 0.1, 4, decimals=None if H.sym else 1) for i in range(n)]
    row = {"project_name": long, "seq_num": 12, "charge_type_1": kind}
    for i in range(1, 5):
        row["charge_current_param_%d" % i] = H.real("c%d" % i, 0.1, 4)
    for k in ("charge_start_soc", "charge_soc_param_1", "charge_soc_param_2", "charge_fast_soc_limit"):
        row[k] = H.real(k, 0, 1)
    for k in ("capacity_nominal", "charge_cutoff_voltage", "charge_voltage_offset_1"):
        row[k] = H.real(k, 0.1, 5, decimals=None if H.sym else 2)
    m = H.mod(MAC)
    asked = []

    class Wave:
        def __init__(self, final_c_rate, soc_initial, soc_final, max_c_rate, min_c_rate):
            self.made = (final_c_rate, soc_initial, soc_final, max_c_rate, min_c_rate)

        def get_currents_with_uniform_time_basis(self, charging_c_rates, mesh_points):
            asked.append((self.made, list(charging_c_rates), list(mesh_points)))
            return arr(H, smooth), arr(H, step), list(range(n))
    d = H.tmpdir()
    with swap(m, RapidChargeWave=Wave):
        r = H.run(m.insert_charging_parametersv1, dict(row), d, *([] if lim == (3.0, 0.2) else lim))
    H.ensure("one waveform computed", len(asked) == 1, asked)
    if len(asked) != 1:
        return
    made, rates, mesh = asked[0]
    want = [row["charge_current_param_%d" % i] for i in range(1, 5)]
    socs = [row[k] for k in ("charge_start_soc", "charge_soc_param_1", "charge_soc_param_2", "charge_fast_soc_limit")]
    H.ensure("rates of the row", and_(len(rates) == 4, *[H.eq(a, b) for a, b in zip(rates, want)]), rates)
    H.ensure("windows of the row", and_(len(mesh) == 4, *[H.eq(a, b) for a, b in zip(mesh, socs)]), mesh)
    H.ensure("range and limits", and_(H.eq(made[0], want[3]), H.eq(made[1], socs[0]), H.eq(made[2], socs[3]), H.eq(made[3], lim[0]), H.eq(made[4], lim[1])), made)
    over = any([H.case(x > lim[0]) for x in smooth + step])
    if over or kind == "cc" or len("%s_%s_12" % (long, kind)) >= 25:
        H.ensure("refused", not r.ok, r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("name of the file", r.value == os.path.join(d, "%s_%s_12.MWF" % (long, kind)), r.value)
    vals = smooth if kind == "smooth" else step
    lines = H.table(r.value, "\t")
    H.ensure("file written", lines is not None)
    if lines is None:
        return
    rr = runs(H, vals)
    H.ensure("one line per run", len(lines) == len(rr), (lines, vals))
    if len(lines) == len(rr):
        for ln, (i, k) in zip(lines, rr):
            H.ensure("charging current in ampere", and_(ln[0] == "C", ln[1] == "I", H.close(ln[2], vals[i] * row["capacity_nominal"], 0.0000051)), (ln, vals[i]))
            H.ensure("length of the run", H.eq(ln[5], k), (ln, k))
            H.ensure("voltage limit of the row", and_(ln[3] == "V", H.close(ln[4], row["charge_cutoff_voltage"] - row["charge_voltage_offset_1"], 1e-9), ln[6] == "V", ln[7] == ">=", H.eq(ln[8], 4.25)), ln)


def arr(H, xs):
    if H.sym:
        from vc import cells
        cells.install()
        return cells.arr(xs)
    import numpy as np
    return np.array(xs, dtype=float)


SCALE = {"mph": (1600, 3600), "kmph": (1000, 3600), "mps": (1, 1)}


@harness("C23", "power_model", conc=200, targets=[W], budget=150)
def h_power(H):
    from fractions import Fraction as F
    t = H.choice("times", [[0, 1], [0, 1, 2], [0, 1, 3], [0.5, 1, 4, 5]])
    u = H.choice("units", ["mph", "kmph", "mps", "knots"])
    v = [H.real("v%d" % i, 0, 60, decimals=None if H.sym else 2) for i in range(len(t))]
    path = H.pcsv(os.path.join(H.tmpdir(), "velocity.txt"), {"Time(s)": t, "Speed": v}, sep="\t")
    r = H.run(H.mod(W).convert_velocity_to_power_waveform, path, u)
    if u == "knots":
        H.ensure("unknown units refused", not r.ok, r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    df = r.value
    H.ensure("columns", sorted(df.columns) == ["power", "time"], list(df.columns))
    H.ensure("one power per sample", len(df) == len(t) and [float(x) for x in df["time"]] == [float(x) for x in t], df)
    if len(df) != len(t):
        return
    s = F(*SCALE[u])
    s = s if H.sym else float(s)
    x = [a * s for a in v]
    tf = [F(a) for a in t]
    for i in range(len(t)):
        if i == 0:
            acc = (x[1] - x[0]) / num(H, tf[1] - tf[0])
        elif i == len(t) - 1:
            acc = (x[i] - x[i - 1]) / num(H, tf[i] - tf[i - 1])
        else:
            a, b = tf[i] - tf[i - 1], tf[i + 1] - tf[i]
            acc = (x[i + 1] - x[i]) * num(H, a / (b * (a + b))) + (x[i] - x[i - 1]) * num(H, b / (a * (a + b)))
        want = -(1500 * acc + 147 + num(H, F(6125, 10000) * F(34, 100) * F(175, 100)) * x[i] * x[i]) * x[i]
        H.ensure("minus the power of inertia, rolling and drag", H.close(df["power"].iloc[i], want, 0.01), (i, df["power"].iloc[i], want))


def num(H, q):
    return q if H.sym else float(q)


@harness("C23", "time_axis", conc=200, targets=[W])
def h_time(H):
    import numpy as np
    n = H.choice("n", [2, 3, 4])
    step = H.choice("step", [0.1, 0.05])
    soc = np.array([0.1 + step * i for i in range(n)])
    cur = [H.real("c%d" % i, 0.1, 4, decimals=None if H.sym else 2) for i in range(n)]
    r = H.run(H.mod(W).RapidChargeWave.get_time_vector_from_c_vs_soc, soc, arr(H, cur))
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    tv = list(r.value)
    H.ensure("one time per point", len(tv) == n)
    for i in range(n if len(tv) == n else 0):
        dt = tv[i] - (tv[i - 1] if i else 0)
        H.ensure("the charge passed is the change of soc", H.close(dt * cur[i], step * 3600, 1e-6), (i, tv))


@harness("C23", "mesh", conc=200, targets=[W])
def h_mesh(H):
    n = H.choice("n", [2, 3, 4])
    if H.sym:
        arr(H, [])
    mesh = [H.real("x%d" % i, 0, 1, decimals=None if H.sym else 1) for i in range(n)]
    w = H.mod(W).RapidChargeWave(1.0, 0.1, 0.8, 3.0, 0.2)
    calls = []
    import numpy as np

    def both(rates, points):
        calls.append((rates, points))
        return np.array([1.0, 2.0]), np.array([0.4, 10.0]), np.array([2.0, 1.0]), np.array([0.5, 10.1])
    w.get_input_currents_both_to_final_soc = both
    rates = [1.0] * n
    r = H.run(w.get_currents_with_uniform_time_basis, rates, list(mesh))
    inc = all([H.case(b > a) for a, b in zip(mesh, mesh[1:])])
    if not inc:
        H.ensure("windows that are not increasing are refused", not r.ok, (mesh, r))
        return
    H.ensure("increasing windows accepted", r.ok and len(calls) == 1 and calls[0][0] == rates, (mesh, r))
    if r.ok:
        s, m, t = r.value
        H.ensure("one sample per second from zero", list(t) == list(range(10)) and len(s) == 10 and len(m) == 10, t)
        want = lambda x, t0, a, t1, b: a if x <= t0 else a + (b - a) * (x - t0) / (t1 - t0)
        H.ensure("currents at the time", all(abs(s[i] - want(i, 0.4, 1.0, 10.0, 2.0)) < 1e-6 and abs(m[i] - want(i, 0.5, 2.0, 10.1, 1.0)) < 1e-6 for i in range(10)), (s, m))


@harness("C23", "rapid_curves", proof=False, conc=40, targets=[W])
def h_curves(H):
    import warnings
    import numpy as np
    rng = H.rng
    k = rng.choice([3, 4, 4])
    lo, hi = 0.2, rng.choice([3.0, 2.0])
    mesh = sorted(rng.sample(range(2, 19), k))
    mesh = [x / 20 for x in mesh]
    rates = [round(rng.uniform(lo + 0.1, hi), 1) for _ in range(k)]
    H.run(lambda: (mesh, rates, hi))
    wv = H.mod(W).RapidChargeWave(rates[-1], mesh[0], mesh[-1], hi, lo)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cs, soc = wv.get_input_current_multistep_soc_as_x(rates, mesh)
        H.ensure("soc axis", len(soc) == 1000 and soc[0] == mesh[0] and soc[-1] == mesh[-1] and bool(np.all(np.diff(soc) > 0)), soc)
        ok = True
        for x, c in zip(soc, cs):
            for i in range(k - 1):
                if mesh[i] + 1e-9 < x < mesh[i + 1] - 1e-9 and abs(c - rates[i]) > 1e-9:
                    ok = False
        H.ensure("stepwise rate of the window", ok, (mesh, rates))
        sm, soc2 = wv.get_input_current_smooth_soc_as_x(rates, mesh)
        H.ensure("smooth rate within the limits", len(sm) == 1000 and lo - 1e-9 <= sm.min() and sm.max() <= hi + 1e-9, (mesh, rates, sm.min(), sm.max()))
        mids = [(a + b) / 2 for a, b in zip(mesh, mesh[1:])]
        H.ensure("smooth rate passes the window's rate at its middle", all(abs(np.interp(x, soc2, sm) - min(max(r, lo), hi)) < 0.02 * hi for x, r in zip(mids, rates)), (mesh, rates))
        r = H.run(wv.get_currents_with_uniform_time_basis, rates, mesh)
    if not r.ok:
        H.ensure("only end times that do not match are refused", type(r.exc) is AssertionError, r)
        return
    s, m, t = r.value
    H.ensure("same whole seconds", len(s) == len(m) == len(t) and list(t[:3]) == [0, 1, 2] and t[-1] == len(t) - 1, t)
    H.ensure("currents within the limits", lo - 1e-9 <= s.min() and s.max() <= hi + 1e-9 and m.max() <= max(rates) + 1e-9, (mesh, rates))
    want = (mesh[-1] - mesh[0]) * 3600
    H.ensure("the range of soc is charged", abs(s.sum() - want) < 0.03 * want + 20 and abs(m.sum() - want) < 0.03 * want + 20, (mesh, rates, s.sum(), m.sum(), want))


@harness("C23", "driving_files", proof=False, conc=6, targets=[MAC, W])
def h_driving_files(H):
    rng = H.rng
    m = H.mod(MAC)
    d = H.tmpdir()
    prof = rng.choice(["US06", "LA4"])
    base = H.mod("beep.protocol").PROTOCOL_SCHEMA_DIR
    with open(os.path.join(base, prof + "_velocity_waveform.txt")) as f:
        pts = [[float(x) for x in ln.split()] for ln in f.read().splitlines()[1:] if ln.strip()]
    t, v = [p[0] for p in pts], [p[1] * 1600 / 3600 for p in pts]
    pw = []
    for i in range(len(t)):
        a, b = max(i - 1, 0), min(i + 1, len(t) - 1)
        acc = (v[b] - v[a]) / (t[b] - t[a])
        pw.append(-(1500 * acc + 147 + 0.5 * 1.225 * 0.34 * 1.75 * v[i] ** 2) * v[i])
    row = {"discharge_profile": prof, "n_repeats": rng.choice([1, 2, 3]), "max_profile_power": rng.choice([30, 40.5]), "power_scaling": rng.choice([1, 0.9, 1.25]), "profile_charge_limit": 4.1, "discharge_cutoff_voltage": 2.8}
    r = H.run(m.insert_driving_parametersv1, row, d)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    lines = H.table(r.value, "\t")
    flat = [(1 if ln[0] == "C" else -1) * ln[2] for ln in lines for _ in range(int(ln[5]))]
    k = row["max_profile_power"] * row["power_scaling"] / max(abs(x) for x in pw)
    want = [x * k for x in pw] * row["n_repeats"]
    H.ensure("the profile, second by second", len(flat) == len(want) and all(abs(a - b) < 2e-5 for a, b in zip(flat, want)), (len(flat), len(want)))
