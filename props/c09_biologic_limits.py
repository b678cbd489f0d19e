"""C09: configured safety limits and user mappings are applied everywhere, and nowhere else."""
import copy
from collections import OrderedDict
from fractions import Fraction as F
from vc.harness import harness
from vc.values import and_, or_, not_
from . import maccor_gen as g
from .c06_maccor_step import parse_mps

M2B = "beep.protocol.maccor_to_biologic_mb"

META = {
    "title": "Safety limits and user mappings reach the whole BioLogic protocol",
    "statement": "During Maccor to BioLogic conversion, an end condition is left out exactly when the configured limits already guarantee it can never be reached first: voltage >= v with v at or above the maximum voltage, voltage <= v with v at or below the minimum voltage, current >= i with i above the maximum current, current <= i with i below the minimum current. Every other end condition and every other part of the step is kept unchanged and in order (whether the step has one or several conditions), a limit that is None removes nothing, and the source procedure is not modified. The configured minimum and maximum voltage are written as the file's safety limits. Every user step mapping and sequence mapping is applied once, in the order registered, to every step (with its step number) and every sequence (with its technique number and index).",
    "over": ["inputs"],
    "qtext": "every limit setting, every list of end conditions with every threshold, every list of mappings",
    "why": "tests use one limit setting and one mapping; boundary thresholds, single conditions and several mappings were wrong",
    "files": ["beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "_apply_step_mappings", "where": "beep/protocol/maccor_to_biologic_mb.py:780"},
                  {"name": "_apply_seq_mappings", "where": "beep/protocol/maccor_to_biologic_mb.py:846"},
                  {"name": "_create_step_end_entry_filter", "where": "beep/protocol/maccor_to_biologic_mb.py:684"}],
    "observe": ["MaccorToBiologicMb.convert: .mps file; _apply_step_mappings; step_mappers/seq_mappers callbacks"],
    "level": "proof",
    "level_note": "step filtering proved for all limits and thresholds, 0-3 end conditions of every kind; mappings proved for 0-3 sequences and 0-3 mappings; the written file is a bounded stand-in",
    "assumptions": ["float() of a decimal text is exact (machine arithmetic as mathematical)", "pydash get/set_/clone_deep as documented"],
    "bounded": ["mps_file: generated protocols of up to 5 steps"],
}

ATTR = {("Voltage", ">="): "max_voltage_v", ("Voltage", "<="): "min_voltage_v", ("Current", ">="): "max_current_a", ("Current", "<="): "min_current_a"}
KINDS = g.KINDS + [("Voltage", "="), ("Loop Cnt", ">=")]


def removed(H, lim, k, op, text):
    a = ATTR.get((k, op))
    if a is None or lim[a] is None:
        return False
    v = H.num(text) if H.sym else float(text)
    return {"max_voltage_v": lambda: v >= lim[a], "min_voltage_v": lambda: v <= lim[a],
            "max_current_a": lambda: v > lim[a], "min_current_a": lambda: v < lim[a]}[a]()


def setup(H, conv, which=None):
    lim = {}
    for a in ("max_voltage_v", "min_voltage_v", "max_current_a", "min_current_a"):
        none = H.choice(a + "_none", [False, True]) if which is None or a in which else True
        # two decimals: exactly representable in the shared value grid
        lim[a] = None if none else H.real(a, -10, 10, pool=[4.2, 2.7, 0, 4.45, 0.05])
        setattr(conv, a, lim[a])
    return lim


def val(H, i, lim, k, op):
    """threshold text; in concrete mode often exactly at the limit"""
    a = ATTR.get((k, op))
    if not H.sym and a and lim[a] is not None and H.choice("at%d" % i, [0, 1]):
        return repr(float(lim[a]))
    return H.numtext("e%d" % i, -10, 10, pool=[4.2, 2.7, 0, 4.45, 0.05]) if k != "StepTime" else "00:10:00"


def ends_of(st):
    e = st["Ends"]
    e = None if e is None else e["EndEntry"]
    return [] if e is None else e if isinstance(e, list) else [e]


@harness("C09", "filter", conc=500, targets=[M2B], budget=300)
def h_filter(H):
    conv = H.mod(M2B).MaccorToBiologicMb()
    nkind = len(KINDS)
    n = H.choice("n", [0, 1, 2, 3])
    kinds = []
    for i in range(n):
        if n == 3 and H.sym:           # one representative pattern per leading kind
            kinds.append(H.choice("k0", KINDS) if i == 0 else KINDS[(KINDS.index(kinds[0]) + 2 * i) % nkind])
        else:
            kinds.append(H.choice("k%d" % i, KINDS))
    lim = setup(H, conv, None if not H.sym else {ATTR[k] for k in kinds if k in ATTR})
    ends = [(k, op, val(H, i, lim, k, op)) for i, (k, op) in enumerate(kinds)]
    entries = [g.end_entry(k, op, t, "%03d" % (i + 2)) for i, (k, op, t) in enumerate(ends)]
    st = g.step("Charge", "Current", "1.0", {"Voltage": "4.2"}, entries, [g.report_entry("Voltage", "0.1")])
    want0 = [dict(e) for e in entries]
    pos = H.choice("pos", [0, 1])
    steps = [g.step("Rest"), st] if pos else [st]
    H.cover("inputs")
    r = H.run(conv._apply_step_mappings, steps)
    H.ensure("does not fail", r.ok, r)
    if not r.ok:
        return
    H.ensure("every step once", len(r.value) == len(steps))
    H.ensure("source procedure unmodified", same(H, [dict(e) for e in ends_of(st)], want0), st)
    out = r.value[-1]
    kept = [e for (k, op, t), e in zip(ends, want0) if not H.case(removed(H, lim, k, op, t))]
    got = ends_of(out)
    H.ensure("exactly the unreachable end conditions are removed", len(got) == len(kept), (ends, lim, got))
    H.ensure("other end conditions unchanged and in order", same(H, [dict(e) for e in got], kept), (ends, lim, got))
    for f in st:
        if f != "Ends":
            H.ensure("rest of the step unchanged", out[f] == st[f], out)


def same(H, a, b):
    if len(a) != len(b):
        return False
    return and_(*[and_(x.keys() == y.keys(), *[H.eq(x[k], y[k]) for k in x]) for x, y in zip(a, b)]) if a else True


@harness("C09", "mappings", conc=100, targets=[M2B])
def h_map(H):
    conv = H.mod(M2B).MaccorToBiologicMb()
    setup(H, conv, ())
    n, m = H.choice("n", [0, 1, 2, 3]), H.choice("m", [0, 1, 2, 3])
    tech = H.int("tech", 1, 9)
    calls = []

    def mk(j):
        def mp(t, seq, i):
            calls.append((j, t, i))
            c = dict(seq)
            c["I Range"] = c["I Range"] + str(j)
            return c
        return mp

    def mks(j):
        def mp(step, num):
            calls.append((j, num))
            c = dict(step)
            c["StepNote"] = c["StepNote"] + str(j)
            return c
        return mp
    seqs = [OrderedDict(conv._blank_seq, **{"Ns": i, "I Range": "x%d-" % i}) for i in range(n)]
    extra = H.choice("extra", [0, 1])
    mine = [mk(j) for j in range(m)]
    conv.seq_mappers = mine[:m - 1] if extra and m else list(mine)
    H.cover("inputs")
    r = H.run(conv._apply_seq_mappings, tech, seqs, mine[m - 1:]) if extra and m else H.run(conv._apply_seq_mappings, tech, seqs)
    H.ensure("does not fail", r.ok, r)
    suffix = "".join(str(j) for j in range(m))
    H.ensure("every sequence once, every mapping in order", [s["I Range"] for s in r.value] == ["x%d-%s" % (i, suffix) for i in range(n)], r)
    H.ensure("sequence order", [s["Ns"] for s in r.value] == list(range(n)), r)
    H.ensure("source sequences unmodified", all(s["I Range"] == "x%d-" % i for i, s in enumerate(seqs)))
    for i in range(n):
        for j in range(m):
            H.ensure("mapping called once with technique and index", len([c for c in calls if c[0] == j and H.case(c[2] == i)]) == 1, calls)
    H.ensure("technique number", and_(*[c[1] == tech for c in calls]) if calls else True)
    # step mappings
    del calls[:]
    steps = []
    for i in range(n):
        s = g.step("Rest")
        s["StepNote"] = "s%d-" % i
        steps.append(s)
    conv.step_mappers = [mks(j) for j in range(m)]
    r = H.run(conv._apply_step_mappings, steps)
    H.ensure("does not fail", r.ok, r)
    H.ensure("every step once, every step mapping in order", [s["StepNote"] for s in r.value] == ["s%d-%s" % (i, suffix) for i in range(n)], r)
    H.ensure("step mapping called once with the step number", sorted(calls) == sorted((j, i + 1) for i in range(n) for j in range(m)), calls)


@harness("C09", "mps_file", proof=False, conc=150, targets=[M2B])
def h_file(H):
    import xmltodict
    d = H.tmpdir()
    conv = H.mod(M2B).MaccorToBiologicMb()
    lim = setup(H, conv)
    for a in ("max_voltage_v", "min_voltage_v"):       # the header needs both
        if lim[a] is None:
            lim[a] = F(H.int(a + "_c", 0, 500), 100)
            setattr(conv, a, float(lim[a]))
        lim[a] = float(lim[a])
        setattr(conv, a, float(lim[a]))
    if H.choice("currents", [0, 1]):
        lim["max_current_a"] = lim["min_current_a"] = None
        conv.max_current_a = conv.min_current_a = None
    n = H.int("steps", 1, 5)
    steps, want = [], []
    for i in range(n):
        ends = []
        for j in range(H.choice("ne%d" % i, [0, 1, 2, 3])):
            k, op = H.choice("k%d_%d" % (i, j), g.KINDS)
            a = ATTR.get((k, op))
            if k == "StepTime":
                t = "00:10:00"
            elif lim[a] is not None and H.choice("at%d_%d" % (i, j), [0, 1]):
                t = repr(float(lim[a]))
            else:
                t = "%.2f" % (H.int("v%d_%d" % (i, j), 0, 500) / 100)
            ends.append((k, op, t))
        steps.append(g.step("Rest", None, None, None, [g.end_entry(k, op, t, "%03d" % (i + 2)) for k, op, t in ends], [g.report_entry("StepTime", "00:00:01")]))
        want.append([(k, op) for k, op, t in ends if not removed(H, lim, k, op, t)])
    steps.append(g.step("End"))
    m = H.choice("mappers", [0, 1, 2, 3])

    def mk(j):
        def mp(t, seq, i):
            c = copy.deepcopy(seq)
            c["I Range"] = "%s%d%d%d" % (c["I Range"], j, t, i)
            return c
        return mp
    conv.seq_mappers = [mk(j) for j in range(m)]
    with open(d + "/p.000", "w") as f:
        f.write(xmltodict.unparse({"MaccorTestProcedure": OrderedDict(ProcSteps=OrderedDict(TestStep=steps))}, pretty=True))
    r = H.run(conv.convert, d + "/p.000", d, "out")
    H.ensure("converted", r.ok, r)
    head, techs = parse_mps(open(r.value[0], "rb").read().decode("ISO-8859-1"))
    H.ensure("safety limits in the header", "\tEcell min = %.2f V\r\n" % conv.min_voltage_v in head and "\tEcell max = %.2f V\r\n" % conv.max_voltage_v in head, head[150:400])
    f = techs[0][2]
    for i in range(n):
        got = [(f["lim%d_type" % (j + 1)][i], f["lim%d_comp" % (j + 1)][i]) for j in range(int(f["lim_nb"][i]))]
        exp = [({"StepTime": "Time", "Voltage": "Ecell", "Current": "|I|"}[k], "<" if op == "<=" else ">") for k, op in want[i]]
        H.ensure("exactly the unreachable end conditions are removed", got == exp, (steps[i]["Ends"], lim, got))
        H.ensure("every mapping applied in order", f["I Range"][i] == str(conv._blank_seq["I Range"]) + "".join("%d1%d" % (j, i) for j in range(m)), f["I Range"])
