"""C11: Arbin and BioLogic protocols get the requested parameters at the right steps."""
import copy
import os
from collections import OrderedDict
from fractions import Fraction as F
from vc.harness import harness
from vc.values import and_, not_
from props.c10_maccor_procedure import leaves, abs_le

ARB, BIO = "beep.protocol.arbin", "beep.protocol.biologic"

META = {
    "title": "Arbin and BioLogic protocols hold the requested parameters",
    "statement": "An Arbin fast-charge schedule made from a template has the requested first and second charge current as control value of the first step labelled CC1 and CC2, and the requested capacity with comparator '>' as the charge-capacity stop limit of the steps labelled CC1, each as a decimal text equal to the requested number to three decimals, whatever its size. Setting values by label changes exactly the addressed key of the first (or, on request, every) step with that label; setting limits by label changes comparator and threshold of exactly the stop limits on that variable. A BioLogic formation protocol has every requested current (C-rate times nominal capacity), voltage (for the constant-current limit and the following constant-voltage hold), hold and rest time in minutes at its step, to three decimals, and the middle cycle repeats as often as requested. Everything else of the template is unchanged.",
    "over": ["inputs"],
    "qtext": "every parameter set (all real currents, capacities, voltages, times, all counts); for labels: schedules of up to four steps with any labels and limits",
    "why": "tests check one parameter row and single keys of one schedule; swapped parameters, later steps with the same label, numbers such as 10 or 100 and unrelated fields are not compared",
    "files": ["beep/protocol/arbin.py", "beep/protocol/biologic.py"],
    "mechanism": [{"name": "Schedule.from_fast_charge", "where": "beep/protocol/arbin.py:108"},
                  {"name": "Schedule.set_labelled_limits", "where": "beep/protocol/arbin.py:194"},
                  {"name": "Settings.formation_protocol_bcs", "where": "beep/protocol/biologic.py:182"}],
    "observe": ["Schedule and Settings objects returned"],
    "level": "proof",
    "level_note": "proved for all parameter values on the shipped templates and on schedules of up to four steps (labels, limits enumerated; values symbolic)",
    "assumptions": ["machine floats as reals; round() as round-half-even; '%.3f' as nearest three-decimal text"],
    "bounded": [],
}

FORM = ["initial_charge_current_1", "initial_charge_voltage_1", "initial_charge_cvhold_1", "initial_charge_rest_1",
        "initial_charge_current_2", "initial_charge_voltage_2", "initial_charge_cvhold_2", "initial_charge_rest_2",
        "initial_discharge_current_1", "initial_discharge_voltage_1", "mid_charge_current_1", "mid_charge_voltage_1",
        "mid_discharge_current_1", "mid_discharge_voltage_1", "final_charge_current_1", "final_charge_voltage_1",
        "final_discharge_current_1", "final_discharge_voltage_1", "final_discharge_cvhold_1", "capacity_nominal"]


def same_rest(H, got, template, changed):
    g, t = dict(leaves(got)), dict(leaves(template))
    H.ensure("same steps and entries", g.keys() == t.keys(), sorted(map(str, g.keys() ^ t.keys()))[:5])
    for p, v in t.items():
        if p not in changed and p in g:
            H.ensure("rest of the template unchanged", g[p] is v or H.eq(g[p], v), (p, v, g[p]))
    return g


@harness("C11", "formation", conc=60, targets=[BIO])
def h_formation(H):
    mod = H.mod(BIO)
    path = os.path.join(H.mod("beep.protocol").BIOLOGIC_TEMPLATE_DIR, "formationV1.mps")
    p, t = mod.Settings.from_file(path), mod.Settings.from_file(path)
    q = {k: H.real(k, 0, 100000 if "rest" in k or "hold" in k else 100, decimals=None if H.sym else 4) for k in FORM}
    q["mid_cycle_reps"] = H.int("mid_cycle_reps", 1, 100000)
    H.cover("inputs")
    arg = dict(q) if H.sym else __import__("pandas").Series(q)
    res = H.run(p.formation_protocol_bcs, arg)
    H.ensure("generated", res.ok, res)
    if not res.ok:
        return
    cap = q["capacity_nominal"]
    want = {(2, "ctrl1_val"): q["initial_charge_current_1"] * cap, (2, "lim1_value"): q["initial_charge_voltage_1"],
            (3, "ctrl1_val"): q["initial_charge_voltage_1"], (3, "lim1_value"): q["initial_charge_cvhold_1"],
            (4, "lim1_value"): q["initial_charge_rest_1"],
            (5, "ctrl1_val"): q["initial_charge_current_2"] * cap, (5, "lim1_value"): q["initial_charge_voltage_2"],
            (6, "ctrl1_val"): q["initial_charge_voltage_2"], (6, "lim1_value"): q["initial_charge_cvhold_2"],
            (7, "lim1_value"): q["initial_charge_rest_2"],
            (8, "ctrl1_val"): q["initial_discharge_current_1"] * cap, (8, "lim1_value"): q["initial_discharge_voltage_1"],
            (9, "ctrl1_val"): q["mid_charge_current_1"] * cap, (9, "lim1_value"): q["mid_charge_voltage_1"],
            (10, "ctrl1_val"): q["mid_discharge_current_1"] * cap, (10, "lim1_value"): q["mid_discharge_voltage_1"],
            (12, "ctrl1_val"): q["final_charge_current_1"] * cap, (12, "lim1_value"): q["final_charge_voltage_1"],
            (13, "ctrl1_val"): q["final_discharge_current_1"] * cap, (13, "lim1_value"): q["final_discharge_voltage_1"],
            (14, "ctrl1_val"): q["final_discharge_voltage_1"], (14, "lim1_value"): q["final_discharge_cvhold_1"]}
    loop = ("Technique", "1", "Step", "11", "ctrl_repeat")
    paths = {("Technique", "1", "Step", str(n), k): v for (n, k), v in want.items()}
    g = same_rest(H, res.value, t, set(paths) | {loop})
    for pth, w in paths.items():
        H.ensure("requested %s of step %s" % (pth[4], pth[3]), abs_le(H, num(H, g[pth]), w, F(1, 2000)), (pth, g[pth], w))
    # the mid cycle runs once before the loop step sends the test back
    H.ensure("middle cycle repeats as requested", H.eq(num(H, g[loop]), q["mid_cycle_reps"] - 1), (g[loop], q["mid_cycle_reps"]))


def num(H, v):
    return H.num(v) if isinstance(v, str) or type(v).__name__ == "SymStr" else v


def decimal(H, label, text, want):
    """text is a decimal literal equal to `want` to three decimals"""
    if H.sym:
        ok = type(text).__name__ == "SymStr" and len(text.p) == 1
        H.ensure(label + " is a decimal text", ok, text)
        if ok:
            H.ensure(label, abs_le(H, H.num(text), want, F(1, 2000)), (text, want))
    else:
        import re
        ok = isinstance(text, str) and re.fullmatch(r"-?\d+(\.\d*)?", text) is not None
        H.ensure(label + " is a decimal text", ok, text)
        if ok:
            H.ensure(label, abs(float(text) - want) <= 0.0005 + 1e-9, (text, want))


@harness("C11", "fast_charge", conc=150, targets=[ARB])
def h_fast(H):
    mod = H.mod(ARB)
    path = os.path.join(H.mod("beep.protocol").SCHEDULE_TEMPLATE_DIR, "20170630-3_6C_9per_5C.sdu")
    dec = None if H.sym else H.choice("decimals", [0, 1, 3, 4])
    c1, cap, c2 = [H.real(k, 0, 2000, decimals=dec) for k in ("CC1", "CC1_capacity", "CC2")]
    if not H.sym:
        scale = H.choice("scale", [1, 10, 100, 0.01])
        c1, cap, c2 = [round(x * scale, 4) for x in (c1, cap, c2)]
    H.cover("inputs")
    res = H.run(mod.Schedule.from_fast_charge, c1, cap, c2, path)
    H.ensure("generated", res.ok, res)
    if not res.ok:
        return
    t = mod.Schedule.from_file(path)
    one = lambda lab: [k for k, s in t["Schedule"].items() if isinstance(s, dict) and s.get("m_szLabel") == lab]
    first1, first2 = one("CC1")[0], one("CC2")[0]
    limits = [(k, l) for k in one("CC1") for l, d in t["Schedule"][k].items() if isinstance(d, dict) and l.startswith("Limit")
              and d["m_bStepLimit"] == "1" and d["Equation0_szLeft"] == "PV_CHAN_Charge_Capacity"]
    H.ensure("the template has a capacity limit", len(limits) >= 1)
    a, b = ("Schedule", first1, "m_szCtrlValue"), ("Schedule", first2, "m_szCtrlValue")
    changed = {a, b} | {("Schedule", k, l, e) for k, l in limits for e in ("Equation0_szCompareSign", "Equation0_szRight")}
    g = same_rest(H, res.value, t, changed)
    decimal(H, "CC1 current", g[a], c1)
    decimal(H, "CC2 current", g[b], c2)
    for k, l in limits:
        H.ensure("capacity comparator", H.eq(g[("Schedule", k, l, "Equation0_szCompareSign")], ">"))
        decimal(H, "CC1 capacity limit", g[("Schedule", k, l, "Equation0_szRight")], cap)


def schedule(H, mod, n, lims):
    s = mod.Schedule()
    steps = OrderedDict()
    labels = []
    for i in range(n):
        lab = H.choice("label%d" % i, ["A", "B"])
        labels.append(lab)
        st = OrderedDict([("m_szLabel", lab), ("m_szCtrlValue", "v%d" % i), ("m_szExt", "e%d" % i)])
        for j in range(lims):
            st["Limit%d" % j] = OrderedDict([("m_bStepLimit", H.choice("stop%d%d" % (i, j), ["0", "1"])),
                                             ("Equation0_szLeft", H.choice("var%d%d" % (i, j), ["X", "Y"])),
                                             ("Equation0_szCompareSign", "<"), ("Equation0_szRight", "r%d%d" % (i, j)),
                                             ("Equation1_szRight", "s%d%d" % (i, j))])
        steps["Step%d" % i] = st
    steps["m_iTotal"] = "7"
    s["Schedule"] = steps
    s["Header"] = OrderedDict([("m_szLabel", "A")])
    return s, labels


@harness("C11", "labelled_steps", conc=120, targets=[ARB])
def h_steps(H):
    mod = H.mod(ARB)
    n = H.choice("steps", [1, 2, 3, 4])
    s, labels = schedule(H, mod, n, 0)
    t = copy.deepcopy(s)
    key = H.choice("key", ["m_szCtrlValue", "m_szExt"])
    mode = H.choice("mode", ["first", "all", None])
    lab = H.choice("which", ["A", "B", "C"])
    val = H.text("val") if H.sym else "new"
    H.cover("inputs")
    args = {} if mode is None else {"mode": mode}
    found = H.run(lambda: list(s.get_labelled_steps(lab)))
    H.ensure("labelled steps found", found.ok and found.value == ["Step%d" % i for i in range(n) if labels[i] == lab], found)
    res = H.run(s.set_labelled_steps, lab, key, val, **args)
    H.ensure("does not fail", res.ok, res)
    if not res.ok:
        return
    hit = [i for i in range(n) if labels[i] == lab]
    if mode != "all":
        hit = hit[:1]
    changed = {("Schedule", "Step%d" % i, key) for i in hit}
    for got in (s, res.value):
        g = same_rest(H, got, t, changed)
        for p in changed:
            H.ensure("addressed value set", H.eq(g[p], val), p)


@harness("C11", "labelled_limits", conc=120, targets=[ARB])
def h_limits(H):
    mod = H.mod(ARB)
    n, m = H.choice("size", [(1, 2), (2, 1), (2, 2)])
    s, labels = schedule(H, mod, n, m)
    t = copy.deepcopy(s)
    val, cmp = (H.text("val"), H.text("cmp")) if H.sym else ("new", ">=")
    H.cover("inputs")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = H.run(s.set_labelled_limits, "A", "X", cmp, val)
    H.ensure("does not fail", res.ok, res)
    if not res.ok:
        return
    changed = {}
    for i in range(n):
        for j in range(m):
            d = t["Schedule"]["Step%d" % i]["Limit%d" % j]
            if labels[i] == "A" and d["m_bStepLimit"] == "1" and d["Equation0_szLeft"] == "X":
                changed[("Schedule", "Step%d" % i, "Limit%d" % j, "Equation0_szCompareSign")] = cmp
                changed[("Schedule", "Step%d" % i, "Limit%d" % j, "Equation0_szRight")] = val
    for got in (s, res.value):
        g = same_rest(H, got, t, changed)
        for p, v in changed.items():
            H.ensure("addressed limit set", H.eq(g[p], v), p)
