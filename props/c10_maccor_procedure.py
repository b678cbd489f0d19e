"""C10: generated Maccor procedures contain the requested test parameters, and nothing else of the template changes."""
import os
from fractions import Fraction as F
from vc.harness import harness
from vc.values import and_, or_, not_

MOD = "beep.protocol.maccor"

META = {
    "title": "Generated Maccor procedures run the requested parameters",
    "statement": "A Maccor procedure generated from a parameter set (diagnosticV2/V3 templates, with their diagnostic cycles, and the EXP template) holds in every step the parameter meant for it: charge/discharge currents are the requested C-rates times the nominal capacity (to the written precision), cutoff voltages, limits and end currents as requested, durations (rests, holds, time to a state of charge, pulses, staggered initial rest) as requested to the second whatever their length, loop counts as requested. Every other field of the template stays as it is. Setting a single step value or the skip-to-end voltage limits changes exactly the addressed entries.",
    "over": ["inputs"],
    "qtext": "every parameter set (all real currents, capacities, voltages, durations, all counts)",
    "why": "tests compare a few generated files; wrong steps, swapped parameters, or durations beyond a day pass unnoticed",
    "files": ["beep/protocol/maccor.py"],
    "mechanism": [{"name": "Procedure.generate_procedure_regcyclev3", "where": "beep/protocol/maccor.py:531"},
                  {"name": "Procedure.generate_procedure_diagcyclev3", "where": "beep/protocol/maccor.py:980"},
                  {"name": "Procedure.from_regcyclev2", "where": "beep/protocol/maccor.py:236"}],
    "observe": ["Procedure objects and the XML file written by Procedure.to_file"],
    "level": "proof",
    "level_note": "proved for all parameter values on the shipped templates; the written file is a bounded stand-in",
    "assumptions": ["float rounding: machine arithmetic treated as real arithmetic, round() as round-half-even on reals", "templates as shipped in beep/protocol"],
    "bounded": ["file: generated parameter sets written with to_file and read back"],
}

REG = dict(charge_constant_current_1=(0.01, 10), charge_percent_limit_1=(0, 100), charge_constant_current_2=(0.01, 10),
           charge_cutoff_voltage=(3.5, 5), charge_constant_voltage_time=(0, 6000), charge_rest_time=(0, 6000),
           discharge_constant_current=(0.01, 10), discharge_cutoff_voltage=(0, 3.4), discharge_rest_time=(0, 6000),
           capacity_nominal=(0.01, 100))
DIAG = dict(reset_cycle_current=(0.01, 10), reset_cycle_cutoff_current=(0.001, 1), diagnostic_charge_cutoff_voltage=(3, 5),
            diagnostic_discharge_cutoff_voltage=(0, 3), diagnostic_cutoff_current=(0.001, 1), HPPC_baseline_constant_current=(0.01, 10),
            HPPC_rest_time=(0, 6000), HPPC_pulse_current_1=(0.01, 10), HPPC_pulse_current_2=(0.01, 10), HPPC_pulse_rest_time=(0, 200000),
            HPPC_pulse_cutoff_voltage=(3, 5), HPPC_interval=(1, 100), RPT_charge_constant_current=(0.01, 10),
            RPT_discharge_constant_current_1=(0.01, 10), RPT_discharge_constant_current_2=(0.01, 10), RPT_discharge_constant_current_3=(0.01, 10))


def draw_reg(H, only=None):
    r = {}
    for k, (lo, hi) in REG.items():
        r[k] = H.real(k, lo, hi, decimals=None if H.sym else 3) if only is None or k in only else 1.0
    r["diagnostic_start_cycle"] = H.int("diagnostic_start_cycle", 1, 1000)
    r["diagnostic_interval"] = H.int("diagnostic_interval", 1, 1000)
    return r


def draw_diag(H):
    d = {k: H.real(k, lo, hi, decimals=None if H.sym else 3) for k, (lo, hi) in DIAG.items()}
    d["HPPC_pulse_duration_1"] = H.int("HPPC_pulse_duration_1", 1, 200000)
    d["HPPC_pulse_duration_2"] = H.int("HPPC_pulse_duration_2", 1, 200000)
    return d


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


class Spec:
    def __init__(self, H, numf=None):
        self.H, self.d = H, {}

    def put(self, idx, path, kind, want):
        self.d[("MaccorTestProcedure", "ProcSteps", "TestStep", idx) + path] = (kind, want)

    def value(self, i, want, prec=3):
        self.put(i, ("StepValue",), prec, want)

    def limit(self, i, which, want):
        self.put(i, ("Limits", which), 3, want)

    def end(self, i, j, want, prec=3):
        self.put(i, ("Ends", "EndEntry") + (() if j is None else (j,)) + ("Value",), prec, want)

    def time(self, i, j, want, kind="time"):
        self.put(i, ("Ends", "EndEntry", j, "Value"), kind, want)

    def check(self, got, template, conv=None):
        H = self.H
        g, t = dict(leaves(got)), dict(leaves(template))
        H.ensure("same steps and entries", g.keys() == t.keys(), sorted(map(str, g.keys() ^ t.keys()))[:5])
        for p, (kind, want) in self.d.items():
            if p not in g:
                H.ensure("parameter present", False, p)
                continue
            v = g[p]
            label = "step parameter %s" % ".".join(map(str, p[4:]))
            if kind == "time" or kind == "seconds":
                s = secs(H, v)
                tol = F(1, 2) if kind == "time" else F(0)
                H.ensure("duration to the second (%s)" % label, abs_le(H, s, want, tol), (p, v, want))
            elif kind == "exact":
                H.ensure("%s exactly" % label, H.eq(H.num(v), want) if H.sym else float(v) == float(want), (p, v, want))
            else:
                v = H.num(v) if isinstance(v, str) else v
                H.ensure(label, abs_le(H, v, want, F(1, 2 * 10 ** kind)), (p, v, want))
        for p, v in t.items():
            if p not in self.d:
                H.ensure("rest of the template unchanged", g[p] is v or H.eq(g[p], v), (p, v, g[p]))


def abs_le(H, a, b, tol):
    if H.sym:
        return and_(a - b <= tol, b - a <= tol)
    return abs(float(a) - float(b)) <= float(tol) + 1e-9 * max(1.0, abs(float(b)))


def secs(H, text):
    h, m, s = text.split(":")
    if H.sym:
        H.ensure("minutes and seconds below 60", and_(H.num(m) < 60, H.num(s) < 60))
    else:
        H.ensure("minutes and seconds below 60", 0 <= int(m) < 60 and 0 <= int(s) < 60, text)
    return H.num(h) * 3600 + H.num(m) * 60 + H.num(s)


def spec_charge(S, i, r, v3):
    cap = r["capacity_nominal"]
    S.value(i, r["charge_constant_current_1"] * cap)
    S.time(i, 0, 3600 * (r["charge_percent_limit_1"] / 100) / r["charge_constant_current_1"])
    if v3:
        S.end(i, 1, r["charge_cutoff_voltage"])
    S.value(i + 1, r["charge_constant_current_2"] * cap)
    S.end(i + 1, 0, r["charge_cutoff_voltage"])
    S.value(i + 2, r["charge_cutoff_voltage"])
    S.time(i + 2, 0, 60 * r["charge_constant_voltage_time"])
    S.time(i + 3, 0, 60 * r["charge_rest_time"])


def spec_discharge(S, i, r, loop):
    S.value(i, r["discharge_constant_current"] * r["capacity_nominal"])
    S.end(i, 0, r["discharge_cutoff_voltage"])
    S.time(i + 1, 0, 60 * r["discharge_rest_time"])
    S.put(i + 3, ("Ends", "EndEntry", "Value"), "exact", r[loop])


def spec_storage(S, i, r, j):
    cap = r["capacity_nominal"]
    S.value(i, F(1, 2) * cap if S.H.sym else 0.5 * cap)
    S.limit(i, "Voltage", r["discharge_cutoff_voltage"])
    S.end(i, j, F(1, 20) * cap if S.H.sym else 0.05 * cap)
    S.value(i + 1, F(1, 2) * cap if S.H.sym else 0.5 * cap)
    S.time(i + 1, 0, 720)


def spec_diag(S, starts, cap, d):
    for kind, i in starts:
        if kind == "reset":
            for k in (i, i + 1):
                S.value(k, cap * d["reset_cycle_current"], 4)
            S.limit(i, "Voltage", d["diagnostic_charge_cutoff_voltage"])
            S.end(i, 0, cap * d["reset_cycle_cutoff_current"], 4)
            S.end(i + 1, 0, d["diagnostic_discharge_cutoff_voltage"])
        elif kind == "hppc":
            base = cap * d["HPPC_baseline_constant_current"]
            S.value(i, base)
            S.limit(i, "Voltage", d["diagnostic_charge_cutoff_voltage"])
            S.end(i, 0, cap * d["diagnostic_cutoff_current"])
            S.time(i + 2, 0, 60 * d["HPPC_rest_time"])
            S.value(i + 3, cap * d["HPPC_pulse_current_1"])
            S.time(i + 3, 0, d["HPPC_pulse_duration_1"], "seconds")
            S.end(i + 3, 1, d["diagnostic_discharge_cutoff_voltage"])
            S.time(i + 4, 0, d["HPPC_pulse_rest_time"])
            S.value(i + 5, cap * d["HPPC_pulse_current_2"])
            S.time(i + 5, 0, d["HPPC_pulse_duration_2"], "seconds")
            S.end(i + 5, 1, d["HPPC_pulse_cutoff_voltage"])
            S.value(i + 6, base)
            S.time(i + 6, 0, 3600 * (d["HPPC_interval"] / 100) / d["HPPC_baseline_constant_current"] - 1)
            S.end(i + 6, 1, d["diagnostic_discharge_cutoff_voltage"])
            S.value(i + 8, d["diagnostic_discharge_cutoff_voltage"])
            S.limit(i + 8, "Current", base)
            S.end(i + 8, 0, cap * d["diagnostic_cutoff_current"])
        else:
            for n, k in enumerate((i, i + 3, i + 6)):
                S.value(k, cap * d["RPT_charge_constant_current"])
                S.limit(k, "Voltage", d["diagnostic_charge_cutoff_voltage"])
                S.end(k, 0, cap * d["diagnostic_cutoff_current"])
                S.value(k + 1, cap * d["RPT_discharge_constant_current_%d" % (n + 1)])
                S.end(k + 1, 0, d["diagnostic_discharge_cutoff_voltage"])


DIAG2 = [("reset", 4), ("hppc", 8), ("rpt", 18), ("reset", 37), ("hppc", 40), ("rpt", 50)]
DIAG3 = DIAG2 + [("reset", 70), ("hppc", 74), ("rpt", 84)]


def tmpl(mod, name):
    return os.path.join(mod.PROCEDURE_TEMPLATE_DIR, name)


def reg_spec(H, S, r, v, index):
    if v == 3:
        S.time(0, 0, 3 * 3600 + 720 * (index % 96), "seconds")
    S.value(1, r["capacity_nominal"])
    for i, loop in ((28, "diagnostic_start_cycle"), (60, "diagnostic_interval")):
        spec_charge(S, i, r, v == 3)
        spec_discharge(S, i + 4, r, loop)
    spec_storage(S, 69 if v == 2 else 93, r, None if v == 2 else 0)


def run_reg(H, v):
    mod = H.mod(MOD)
    r = draw_reg(H)
    index = H.int("protocol_index", 0, 500)
    H.cover("inputs")
    arg = dict(r) if H.sym else __import__("pandas").Series(r)
    res = H.run(mod.Procedure.from_regcyclev2, arg) if v == 2 else H.run(mod.Procedure.generate_procedure_regcyclev3, index, arg)
    H.ensure("generated", res.ok, res)
    if not res.ok:
        return None
    S = Spec(H)
    reg_spec(H, S, r, v, index)
    t = mod.Procedure.from_file(tmpl(mod, "diagnosticV%d.000" % v))
    return S, res.value, t, r


@harness("C10", "regcycle_v2", conc=40, targets=[MOD], budget=300)
def h_reg2(H):
    x = run_reg(H, 2)
    if x:
        x[0].check(x[1], x[2])


@harness("C10", "regcycle_v3", conc=40, targets=[MOD], budget=300)
def h_reg3(H):
    x = run_reg(H, 3)
    if x:
        x[0].check(x[1], x[2])


@harness("C10", "diagnostic_cycles", conc=40, targets=[MOD], budget=300)
def h_diag(H):
    mod = H.mod(MOD)
    v = H.choice("version", [2, 3])
    d, cap = draw_diag(H), H.real("nominal_capacity", 0.01, 100, decimals=None if H.sym else 3)
    p = mod.Procedure.from_file(tmpl(mod, "diagnosticV%d.000" % v))
    t = mod.Procedure.from_file(tmpl(mod, "diagnosticV%d.000" % v))
    H.cover("inputs")
    arg = dict(d) if H.sym else __import__("pandas").Series(d)
    res = H.run(p.add_procedure_diagcyclev2 if v == 2 else p.generate_procedure_diagcyclev3, cap, arg)
    H.ensure("generated", res.ok, res)
    if not res.ok:
        return
    S = Spec(H)
    spec_diag(S, DIAG2 if v == 2 else DIAG3, cap, d)
    S.check(res.value, t)


@harness("C10", "exp", conc=40, targets=[MOD])
def h_exp(H):
    mod = H.mod(MOD)
    cv, ch, dc = H.real("cutoff", 2, 5), H.real("charge", 0.01, 10), H.real("discharge", 0.01, 10)
    H.cover("inputs")
    res = H.run(mod.Procedure.from_exp, cv, ch, dc)
    H.ensure("generated", res.ok, res)
    if not res.ok:
        return
    t = mod.Procedure.from_file(tmpl(mod, "EXP.000"))
    S = Spec(H)
    inloop = False
    for i, s in enumerate(t["MaccorTestProcedure"]["ProcSteps"]["TestStep"]):
        if s["StepType"] == "Do 1":
            inloop = True
        elif s["StepType"] == "Loop 1":
            inloop = False
        if s["StepType"] == "Charge" and s["Limits"] is not None and "Voltage" in s["Limits"]:
            S.put(i, ("Limits", "Voltage"), "exact", cv)
        if inloop and s["StepMode"] == "Current":
            if s["StepType"] == "Charge":
                S.put(i, ("StepValue",), "exact", ch)
            elif s["StepType"] == "Dischrge":
                S.put(i, ("StepValue",), "exact", dc)
    S.check(res.value, t)


@harness("C10", "single_changes", conc=60, targets=[MOD])
def h_single(H):
    mod = H.mod(MOD)
    p, t = [mod.Procedure.from_file(tmpl(mod, "diagnosticV3.000")) for _ in (0, 1)]
    steps = t["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
    S = Spec(H)
    if H.choice("what", ["value", "skip"]) == "value":
        i = H.choice("step", list(range(0, len(steps), 3)))
        ty = H.choice("type", ["Charge", "Dischrge", "Rest"])
        x = H.real("x", 0, 10)
        H.cover("inputs")
        res = H.run(p.modify_step_value, i, ty, x)
        if steps[i]["StepType"] == ty:
            S.put(i, ("StepValue",), "exact", x)
    else:
        mx, mn = H.real("max", 3, 5), H.real("min", 1, 3)
        new = H.choice("new", [None, "095"])
        key = H.choice("key", ["070", "071", "060"])
        H.cover("inputs")
        res = H.run(p.set_skip_to_end_diagnostic, mx, mn, step_key=key, new_step_key=new)
        for i, s in enumerate(steps):
            e = s["Ends"]
            if e is None or not isinstance(e["EndEntry"], list):
                continue
            for j, en in enumerate(e["EndEntry"]):
                if en["Step"] == key and en["EndType"] == "Voltage" and en["Oper"] in (">=", "<="):
                    S.put(i, ("Ends", "EndEntry", j, "Value"), "exact", mx if en["Oper"] == ">=" else mn)
                    if new:
                        S.put(i, ("Ends", "EndEntry", j, "Step"), "exact", int(new))
    H.ensure("does not fail", res.ok, res)
    if res.ok:
        S.check(p, t)


@harness("C10", "file", proof=False, conc=25, targets=[MOD])
def h_file(H):
    d = H.tmpdir()
    mod = H.mod(MOD)
    v = H.choice("version", [2, 3])
    x = run_reg(H, v)
    S, p, t, r = x
    dg = draw_diag(H)
    import pandas as pd
    (p.add_procedure_diagcyclev2 if v == 2 else p.generate_procedure_diagcyclev3)(r["capacity_nominal"], pd.Series(dg))
    spec_diag(S, DIAG2 if v == 2 else DIAG3, r["capacity_nominal"], dg)
    res = H.run(p.to_file, d + "/x.000")
    H.ensure("written", res.ok, res)
    S.check(mod.Procedure.from_file(d + "/x.000"), t)
