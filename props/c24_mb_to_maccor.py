"""C24: a BioLogic Modulo Bat protocol and the Maccor procedure made from it do the same thing."""
import os
from fractions import Fraction as F
from vc.harness import harness, Contract
from vc.values import and_, or_, not_

MB = "beep.protocol.biologic_mb_to_maccor"
CLS = MB + ":BiologicMbToMaccorProcedure."
KNOWN_DIR = "KNOWN-FINDING: property=C24 a Charge sequence becomes a Maccor discharge step (StepType 'Dischrge ')"
KNOWN_LOOP = "KNOWN-FINDING: property=C24 the Maccor loop made of a BioLogic loop carries its count in StepValue instead of Value (not raised by one) and leaves to its own Do step"

META = {
    "title": "A BioLogic Modulo Bat protocol and the Maccor procedure made from it do the same",
    "statement": "Converting a protocol of one Modulo Bat technique gives a Maccor procedure with one step per CC, CV, CR, CP or Rest sequence, in order, of the same control mode and direction, with the same set value; one end condition per used limit and one report per used record, in order, with the same quantity, comparison and threshold in Maccor's units. Every loop becomes a Do before its first sequence and an AdvCycle and Loop in place of the loop sequence; an empty loop that the next sequence repeats becomes one AdvCycle, other empty loops disappear; one End step follows. An end condition that continues with the next sequence, the end, or another sequence continues at the step of that sequence: the following step, the End step, the step itself, or its Do when a loop is entered from before. Sequences, limits, records, units, comparisons and actions that Maccor cannot express, overlapping loops, and jumps into or back over a loop are refused with an error, never converted; limits that do not jump are no reason to refuse. The file has the given header and the steps of the procedure.",
    "over": ["inputs"],
    "qtext": "every Modulo Bat technique: all sequence types, limits, records, units, loops and jump targets",
    "why": "tests convert one protocol and one Rest and one CC sequence; jumps into and out of loops, cycle advances and the step numbers they shift are combinatorial",
    "files": ["beep/protocol/biologic_mb_to_maccor.py"],
    "mechanism": [{"name": "_create_step", "where": "beep/protocol/biologic_mb_to_maccor.py:297"}, {"name": "_create_steps", "where": "beep/protocol/biologic_mb_to_maccor.py:518"}],
    "observe": ["steps returned by _create_step and _create_steps; file written by BiologicMbToMaccorProcedure.convert"],
    "level": "proof",
    "level_note": "one sequence proved for all values and every combination of type, 0-4 limits and records (modularly against the unit conversions, proved for every text); control flow proved for all loop counts on every structure of up to 5 sequences with every jump target; the written file: bounded stand-in",
    "assumptions": ["sequence numbers count from 0 and BioLogic numbers have at most 3 decimals", "copy.deepcopy and xmltodict as documented", "the sign of BioLogic currents is not judged"],
    "bounded": ["flow: structures of up to 5 sequences", "mps_file: generated protocols of up to 9 sequences"],
    "known": [KNOWN_DIR, KNOWN_LOOP],
}


def mkc(k):
    memo = {}

    def fresh(H, val, unit, *rest):
        path = (id(H.e), H.e.paths)
        if memo.get("path") != path:
            memo.clear()
            memo["path"] = path
        key = (repr(val), unit)
        if key not in memo:
            memo[key] = (H.opaque(k), val)
        return memo[key][0]
    return Contract(CLS + "_convert_" + k, fresh, lambda H, r, *a: [])


for _k in ("voltage", "current", "time", "power", "resistance"):
    mkc(_k)
CONV = [CLS + "_convert_" + k for k in ("voltage", "current", "time", "power", "resistance")]

UNITS = {"current": {"A": 0, "mA": -3, "\u03bcA": -6, "\u00b5A": -6, "nA": -9, "pA": -12}, "voltage": {"V": 0, "mV": -3},
         "resistance": {"MOhm": 6, "kOhm": 3, "Ohm": 0, "mOhm": -3, "\u03bcOhm": -6, "\u00b5Ohm": -6}, "power": {"W": 0, "mW": -3, "\u03bcW": -6, "\u00b5W": -6}}
BAD = {"current": ["V", "kA", ""], "voltage": ["A", "kV", "\u00b5V"], "resistance": ["V", "ohm"], "power": ["V", "kW"]}


@harness("C24", "units", conc=300, targets=[MB])
def h_units(H):
    kind, unit, ok = H.choice("unit", [(k, u, True) for k in UNITS for u in UNITS[k]] + [(k, u, False) for k in BAD for u in BAD[k]])
    text = H.numtext("val", -1000, 1000, decimals=3, pool=["1.500", "0.001", "-4.000"])
    r = H.run(getattr(H.mod(MB).BiologicMbToMaccorProcedure, "_convert_" + kind), text, unit, "field", 1)
    if not ok:
        H.ensure("unknown unit refused", not r.ok, r)
        return
    H.ensure("converted", r.ok, r)
    if r.ok:
        e = UNITS[kind][unit]
        if H.sym:
            H.ensure("same number, unit as exponent", value_in(H, r.value, text, e), r.value)
        else:
            H.ensure("same number, unit as exponent", H.num(r.value) == H.num(text) * F(10) ** e, (r.value, text, unit))


def value_in(H, out, text, e):
    """out is the text followed by an exponent of value e"""
    n = len(text.p)
    if type(out) is not type(text) or len(out.p) < n or not all(a is b for a, b in zip(out.p, text.p)):
        return False
    rest = "".join(out.p[n:]) if all(isinstance(x, str) for x in out.p[n:]) else "?"
    try:
        return rest[:1] in ("", "e", "E") and F("1" + rest) == F(10) ** e
    except ValueError:
        return False


def secs(text):
    h, m, s = str(text).split(":")
    return (F(h or "0") * 60 + F(m or "0")) * 60 + F(s or "0")


@harness("C24", "times", proof=False, conc=400, targets=[MB])
def h_times(H):
    unit = H.choice("unit", ["h", "mn", "s", "ms", "us", "V"])
    v = H.rng.choice([0.0, 1.0, 1.5, 90.0, 10.0, 20.0, 7.0, 1230.0, 15.5, 0.1, 36000.0, round(H.rng.uniform(0, 5000), H.rng.choice([0, 1, 2, 3]))])
    r = H.run(H.mod(MB).BiologicMbToMaccorProcedure._convert_time, v, unit, "f", 1)
    if unit in ("us", "V"):
        H.ensure("unknown unit refused", not r.ok, r)
        return
    want = F(repr(v)) * {"h": 3600, "mn": 60, "s": 1, "ms": F(1, 1000)}[unit]
    if unit == "ms" and F(1, 10) + F(1, 10 ** 6) < F(repr(v)) % 10 < F(99, 10) - F(1, 10 ** 6):
        H.ensure("finer than a hundredth of a second refused", not r.ok, (v, r))
        return
    if not r.ok:
        H.ensure("converted", unit == "ms" and F(repr(v)) % 10 != 0, (v, unit, r))
        return
    H.ensure("same duration", abs(secs(r.value) - want) <= (F(1, 200) if unit == "ms" else 0), (v, unit, r.value))


# ------------------------------------------------------------------ one sequence
TYPES = [("CC", "current", "A", ""), ("CC", "current", "mA", "<None>"), ("CV", "voltage", "V", "Ref"), ("CV", "voltage", "mV", "Ctrl"), ("CR", "resistance", "Ohm", ""), ("CP", "power", "mW", ""),
         ("Rest", None, "", ""), ("CA", "current", "A", "")]
MODE = {"CC": "Current ", "CV": "Voltage ", "CR": "Resistance ", "CP": "Power ", "Rest": "        "}
LIMS = [("Time", ">", "s"), ("Ecell", "<", "mV"), ("Ece", ">", "V"), ("I", "<", "mA"), ("I", ">", "A"), ("|I|", "<", "mA"), ("Ecell", "=", "V")]
LNAME = {"Time": ("StepTime", "time"), "Ecell": ("Voltage ", "voltage"), "Ece": ("Voltage ", "voltage"), "I": ("Current ", "current")}
RECS = [("Time", "s"), ("Ecell", "mV"), ("I", "A"), ("Power", "W"), ("Ece", "V"), ("Q", "mA.h")]
RNAME = dict(LNAME, Power=("Power ", "power"))
ACTIONS = ["Next sequence", "End", "Goto sequence", "Pause"]


def op(ltype, comp):
    return "<=" if comp == "<" else "=" if ltype == "Time" else ">="


def base_seq(ns, ctype):
    s = {"Ns": str(ns), "ctrl_type": ctype, "Apply I/C": "I", "ctrl1_val": "", "ctrl1_val_unit": "", "ctrl1_val_vs": "", "charge/discharge": "Discharge", "ctrl_seq": "0", "ctrl_repeat": "0", "lim_nb": "0", "rec_nb": "0"}
    for i in (1, 2, 3):
        s.update({"lim%d_type" % i: "Time", "lim%d_comp" % i: ">", "lim%d_value" % i: "0.000", "lim%d_value_unit" % i: "s", "lim%d_action" % i: "Next sequence", "lim%d_seq" % i: str(ns + 1),
                  "rec%d_type" % i: "Time", "rec%d_value" % i: "0.000", "rec%d_value_unit" % i: "s"})
    return s


def conv(H, kind, val, unit):
    return H.run(getattr(H.mod(MB).BiologicMbToMaccorProcedure, "_convert_" + kind), val, unit, "f", 1)


def as_list(entries, name):
    if not entries:
        return []
    e = entries[name]
    return list(e) if isinstance(e, list) else [e]


def direction_ok(H, direction, got):
    right = "Charge" if direction == "Charge" else "Dischrge"
    # KNOWN_DIR: a charge becomes a discharge
    return got.strip() == right or direction == "Charge" and got == "Dischrge "


def one(H, nl, nr):
    few = H.sym and nl + nr > 1
    ctype, kind, unit, vs = H.choice("type", [TYPES[1], TYPES[6]] if few else TYPES)
    direction = H.choice("direction", ["Charge", "Discharge", "Both"] if nl + nr == 0 else ["Discharge"] if few else ["Charge", "Discharge"])
    s = base_seq(0, ctype)
    s.update({"ctrl1_val": H.numtext("v", -100, 100, decimals=3) if kind else "", "ctrl1_val_unit": unit, "ctrl1_val_vs": vs, "charge/discharge": direction, "lim_nb": str(nl), "rec_nb": str(nr)})
    ns, sn, end = H.int("seq", 0, 40), H.int("step", 1, 60), H.int("end", 1, 99)
    gt, gtstep = H.int("goto", 0, 40), H.int("goto_step", 2, 60)
    H.assume(not_(H.eq(gt, ns)))
    s["Ns"] = ns
    known, starts = H.choice("goto_known", [(True, True), (False, False)] if few else [(True, False), (True, True), (False, False)]) if nl else (True, False)
    lims, recs = [], []
    for i in range(nl):
        lt, comp, lu = H.choice("lim%d" % i, LIMS[:3] + LIMS[5:6] if few else LIMS) if i == 0 else LIMS[H.choice("lim%d" % i, [0, 3])]
        act = H.choice("act%d" % i, ACTIONS[:3] if few else ACTIONS) if i == 0 else ACTIONS[i % 3]
        val = H.numtext("l%d" % i, 0, 1000, decimals=3)
        p = "lim%d_" % (i + 1)
        s.update({p + "type": lt, p + "comp": comp, p + "value": val, p + "value_unit": lu, p + "action": act, p + "seq": gt})
        lims.append((lt, comp, lu, act, val))
    for i in range(nr):
        rt, ru = H.choice("rec%d" % i, RECS if nl == 0 or not few else RECS[1:3]) if i == 0 else RECS[(i + nl) % 4]
        val = H.numtext("r%d" % i, 0, 1000, decimals=3)
        p = "rec%d_" % (i + 1)
        s.update({p + "type": rt, p + "value": val, p + "value_unit": ru})
        recs.append((rt, ru, val))

    class Map:                      # any map from sequences to steps that knows this sequence
        _vc_model = True

        def __contains__(self, k):
            return H.case(H.eq(k, ns)) or (known and H.case(H.eq(k, gt)))

        def __getitem__(self, k):
            if H.case(H.eq(k, ns)):
                return sn
            if known and H.case(H.eq(k, gt)):
                return gtstep
            raise KeyError(k)

        def get(self, k, d=None):
            return self[k] if k in self else d

    class Set:
        _vc_model = True

        def __contains__(self, k):
            return starts and H.case(H.eq(k, gt))
    before = dict(s)
    r = H.run(H.mod(MB).BiologicMbToMaccorProcedure._create_step, s, Map(), Set(), end)
    bad = ctype == "CA" or (ctype == "CV" and vs != "Ref") or direction == "Both" or nl > 3 or nr > 3
    bad = bad or any(l[0] not in LNAME or l[1] not in "<>" or l[3] == "Pause" or (l[3] == "Goto sequence" and not known) for l in lims[:3]) or any(x[0] not in RNAME for x in recs[:3])
    if bad:
        H.ensure("what Maccor cannot express is refused", not r.ok, (ctype, vs, direction, lims, recs, r))
        return
    H.ensure("converted", r.ok, r)
    if not r.ok:
        return
    st = r.value
    H.ensure("sequence unchanged", set(s) == set(before) and all(s[k] is before[k] for k in before))
    H.ensure("control mode", st["StepMode"] == MODE[ctype], st)
    if kind:
        w = conv(H, kind, s["ctrl1_val"], unit)
        H.ensure("set value", w.ok and H.eq(st["StepValue"], w.value), (st, w))
        H.ensure("direction", direction_ok(H, direction, st["StepType"]), (direction, st))
    else:
        H.ensure("rest", and_(st["StepType"] == "  Rest  ", st["StepValue"] == ""), st)
    ends, reps = as_list(st["Ends"], "EndEntry"), as_list(st["Reports"], "ReportEntry")
    H.ensure("one end condition per limit", len(ends) == nl, st)
    H.ensure("one report per record", len(reps) == nr, st)
    if len(ends) == nl and len(reps) == nr:
        for e, (lt, comp, lu, act, val) in zip(ends, lims):
            H.ensure("quantity of the limit", e["EndType"] == LNAME[lt][0], e)
            H.ensure("comparison of the limit", e["Oper"].strip() == op(lt, comp), e)
            w = conv(H, LNAME[lt][1], H.num(val) if H.sym else float(val), lu)
            H.ensure("threshold of the limit", w.ok and H.eq(e["Value"], w.value), (e, w))
            if act == "End":
                want = end
            elif act == "Next sequence":
                want = sn + 1
            else:
                want = gtstep - 1 if starts and H.case(gt > ns) else gtstep
            H.ensure("continues at the step", H.eq(H.num(e["Step"]), want), (e, act, want))
        for e, (rt, ru, val) in zip(reps, recs):
            H.ensure("quantity of the record", e["ReportType"] == RNAME[rt][0], e)
            w = conv(H, RNAME[rt][1], H.num(val) if H.sym else float(val), ru)
            H.ensure("value of the record", w.ok and H.eq(e["Value"], w.value), (e, w))
    H.ensure("range and options", (st["Range"], st["Option1"], st["Option2"], st["Option3"]) == ("4", "N", "N", "N"), st)


@harness("C24", "sequence_limits", conc=300, contracts=CONV, targets=[MB], budget=200)
def h_seq_l(H):
    one(H, H.choice("limits", [0, 1, 2, 3, 4]), 0)


@harness("C24", "sequence_records", conc=300, contracts=CONV, targets=[MB], budget=200)
def h_seq_r(H):
    one(H, H.choice("limits", [0, 1]), H.choice("records", [1, 2, 3, 4]))


# ------------------------------------------------------------------ control flow
def structures(n):
    """all lists of S (step), B (empty loop), ('L', k) (loop back to k)"""
    if n == 0:
        return [[]]
    out = []
    for s in structures(n - 1):
        out.append(s + ["S"])
        if n < 5:
            out.append(s + ["B"])
        out += [s + [("L", k)] for k in range(n - 1)]
    return out


def loops_of(st):
    """[(first, last)] of real loops, cycle advances (set of last), None if the structure must be refused"""
    real, adv = [], set()
    for i, k in enumerate(st):
        if isinstance(k, tuple):
            t = k[1]
            if t == i - 1 and st[t] == "B":
                adv.add(i)
            elif st[t] == "B" or isinstance(st[t], tuple):
                return None, None          # a loop that returns to an empty loop or to a loop
            else:
                real.append((t, i))
    allr = real + [(i - 1, i) for i in adv]
    for a in allr:
        for b in allr:
            if a < b and b[0] <= a[1]:
                return None, None          # overlapping or nested
    return real, adv


def layout(st):
    """(kinds of the Maccor steps, step of sequence, Do of loop start)"""
    real, adv = loops_of(st)
    starts = {a for a, _ in real}
    out, pos, do = [], {}, {}
    for i, k in enumerate(st):
        if k == "B":
            continue
        if i in starts:
            out.append("Do")
            do[i] = len(out)
        pos[i] = len(out) + 1
        if k == "S":
            out.append(("S", i))
        elif i in adv:
            out.append("Adv")
        else:
            out += ["Adv", ("Loop", i)]
    return out + ["End"], pos, do


def jump(st, i, t):
    """'refuse', 'accept' or 'any' for a jump of sequence i to t"""
    if t == i:
        return "any"
    real, adv = loops_of(st)
    rng = real + [(x - 1, x) for x in adv]
    if t >= len(st) or t < 0 or st[t] == "B":
        return "refuse"
    inside = lambda x: next((r for r in real if r[0] <= x <= r[1]), None)
    ends = [b for _, b in rng if b < i]
    if any(t < b for _, b in real if b < i):
        return "refuse"
    a, b = inside(i), inside(t)
    if b and a != b and t != b[0]:
        return "refuse"
    if (ends and t <= max(ends)) or t in adv or (b and a and a != b):
        return "any"
    return "accept"


def kind_of(step):
    t = step["StepType"].strip()
    return {"Do 1": "Do", "AdvCycle": "Adv", "Loop 1": "Loop", "End": "End"}.get(t, "S")


def check_flow(H, st, steps, tags, counts, jumps):
    out, pos, do = layout(st)
    H.ensure("as many steps", len(steps) == len(out), (st, [s["StepType"] for s in steps]))
    if len(steps) != len(out):
        return
    for s, o in zip(steps, out):
        H.ensure("kind of the step", kind_of(s) == (o[0] if isinstance(o, tuple) else o), (st, [x["StepType"] for x in steps]))
    for n, (s, o) in enumerate(zip(steps, out), 1):
        if not isinstance(o, tuple):
            H.ensure("no conditions", not s["Ends"] and not s["Reports"], s)
            continue
        i = o[1]
        es = as_list(s["Ends"], "EndEntry")
        H.ensure("one end condition", len(es) == 1, s)
        if len(es) != 1:
            return
        e = es[0]
        if o[0] == "Loop":
            H.ensure("loop count", e["EndType"] == "Loop Cnt" and e["Oper"].strip() == "=", e)
            d = do[st[i][1]]
            right = and_(H.eq(H.num(e["Value"]), counts[i] + 1), H.eq(H.num(e["Step"]), n + 1)) if e["Value"] else False
            # KNOWN_LOOP: the count in StepValue, not raised, and the Do step as the way out
            rec = and_(e["Value"] == "", H.eq(H.num(e["StepValue"]), counts[i]), H.eq(H.num(e["Step"]), d)) if "StepValue" in e else False
            H.ensure("runs as often as the loop says", or_(right, rec), (e, counts[i], n, d))
            continue
        H.ensure("set value of the sequence", H.eq(s["StepValue"], tags[i]), (i, s))
        act, t = jumps[i]
        want = len(out) if act == "End" else n + 1 if act == "Next sequence" else do[t] if t in do and t > i else pos[t]
        H.ensure("continues at the step of the sequence", H.eq(H.num(e["Step"]), want) and len(e["Step"]) == 3, (st, i, act, t, e, want))


def mkseqs(H, st, counts, jumps, tags):
    seqs = []
    for i, k in enumerate(st):
        s = base_seq(i, "CC" if k == "S" else "Loop")
        if k == "S":
            s.update({"ctrl1_val": tags[i], "ctrl1_val_unit": "A", "lim_nb": "1", "rec_nb": "0", "lim1_value": "5.000", "lim1_action": jumps[i][0], "lim1_seq": str(jumps[i][1])})
        elif k != "B":
            s.update({"ctrl_seq": str(k[1]), "ctrl_repeat": counts[i]})
        seqs.append(s)
    return seqs


def flow(H, n, sts):
    st = H.choice("structure", sts)
    real, adv = loops_of(st)
    steps = [i for i, k in enumerate(st) if k == "S"]
    who = H.choice("jumper", steps) if steps else None
    jumps = {i: ("Next sequence", H.choice("stale", [0, n]) if i == steps[-1] and who != i else i + 1) for i in steps}
    if who is not None:
        jumps[who] = H.choice("action", [("End", 0), ("Goto sequence", -1)] if H.sym else [("End", 0), ("Next sequence", 0), ("Goto sequence", -1)])
        if jumps[who][0] == "Goto sequence":
            jumps[who] = ("Goto sequence", H.choice("target", list(range(n + 1))))
    counts, texts = {}, {}
    for i, k in enumerate(st):
        if isinstance(k, tuple):
            if real is not None and i in adv:
                texts[i], counts[i] = "1", 1
            else:
                texts[i] = H.inttext("count%d" % i, 1, 9999)
                counts[i] = H.num(texts[i])
    tags = {i: "%d.500" % i for i in steps}
    seqs = mkseqs(H, st, texts, jumps, tags)
    r = H.run(H.mod(MB).BiologicMbToMaccorProcedure._create_steps, seqs)
    verdict = "refuse" if real is None else jump(st, who, jumps[who][1]) if who is not None and jumps[who][0] == "Goto sequence" else "accept"
    if verdict == "refuse":
        H.ensure("illegal loops and jumps are refused", not r.ok, (st, jumps))
        return
    if verdict == "accept":
        H.ensure("legal loops and jumps are converted", r.ok, (st, jumps, r))
    if r.ok:
        check_flow(H, st, r.value, tags, counts, jumps)


@harness("C24", "flow", conc=300, targets=[MB], budget=250)
def h_flow(H):
    n = H.choice("n", [1, 2, 3, 4])
    flow(H, n, structures(n))


@harness("C24", "flow5", conc=300, targets=[MB], budget=250)
def h_flow5(H):
    flow(H, 5, [s for s in structures(5) if any(isinstance(k, tuple) for k in s) and s[0] == "S" and loops_of(s)[0]])


# ------------------------------------------------------------------ the whole file (bounded)
ROWS = ["Ns", "ctrl_type", "Apply I/C", "ctrl1_val", "ctrl1_val_unit", "ctrl1_val_vs", "ctrl2_val", "ctrl2_val_unit", "ctrl3_val", "N", "charge/discharge", "ctrl_seq", "ctrl_repeat", "ctrl_trigger",
        "ctrl_Nd", "ctrl_Na", "ctrl_corr", "lim_nb"] + ["lim%d_%s" % (i, k) for i in (1, 2, 3) for k in ("type", "comp", "Q", "value", "value_unit", "action", "seq")] + ["rec_nb"] + \
    ["rec%d_%s" % (i, k) for i in (1, 2, 3) for k in ("type", "value", "value_unit")] + ["E range min (V)", "E range max (V)", "I Range", "I Range min", "I Range max", "I Range init", "auto rest", "Bandwidth"]


def mps_text(seqs, eol, extra):
    head = ["BT-LAB SETTING FILE", "", "Number of linked techniques : 1", "", "Device : BCS-815", "Electrode surface area : 0.001 cm\u00b2", "Cycle Definition : Charge/Discharge alternance", ""]
    rows = ["%-20s" % k + "".join("%-20s" % s.get(k, "") for s in seqs) + " " * 20 * extra for k in ROWS]
    return eol.join(head + ["Technique : 1", "Modulo Bat"] + rows) + eol


@harness("C24", "mps_file", proof=False, conc=400, targets=[MB])
def h_mps(H):
    import xml.etree.ElementTree as ET
    R = H.rng
    n = R.randint(1, 9)
    st = []
    while len(st) < n:
        i = len(st)
        last = max([x for x, k in enumerate(st) if isinstance(k, tuple)], default=-1)
        c = R.random()
        if c < 0.15 and i + 2 < n:
            st += ["B", ("L", i)]
        elif c < 0.25:
            st.append("B")
        elif c < 0.45 and i and (R.random() < .2 or any(st[k] == "S" for k in range(last + 1, i))):
            st.append(("L", R.randrange(i) if R.random() < .2 else R.choice([k for k in range(last + 1, i) if st[k] == "S"] or [0])))
        else:
            st.append("S")
    real, adv = loops_of(st)
    jumps, counts, tags = {}, {}, {}
    verdicts = []
    for i, k in enumerate(st):
        if isinstance(k, tuple):
            counts[i] = 1 if real is not None and i in adv else R.randint(1, 300)
        if k != "S":
            continue
        tags[i] = "%d.%03d" % (R.randint(0, 99), R.randint(1, 999))
        jumps[i] = ("Next sequence", R.choice([i + 1, 0, n])) if R.random() < .7 else R.choice([("End", R.choice([0, n])), ("Goto sequence", R.randrange(n + 1)), ("Goto sequence", min(n - 1, i + 1))])
        if real is not None and jumps[i][0] == "Goto sequence":
            verdicts.append(jump(st, i, jumps[i][1]))
    seqs = mkseqs(H, st, {i: str(c) for i, c in counts.items()}, jumps, tags)
    d = H.tmpdir()
    src, dst = os.path.join(d, "in.mps"), os.path.join(d, "out.000")
    extra = R.choice([0, 0, 1])
    with open(src, "wb") as f:
        f.write(mps_text(seqs, R.choice(["\r\n", "\n"]), extra).encode("ISO-8859-1"))
    header = {"BuildTestVersion": {"major": "1", "minor": "5"}, "ProcDesc": R.choice(["", "a <b> & c"])}
    own = R.random() < .5
    mod = H.mod(MB)
    r = H.run(mod.BiologicMbToMaccorProcedure.convert, src, dst, **({"maccor_header": header} if own else {}))
    ctx = (st, jumps, counts)
    if real is None or "refuse" in verdicts:
        H.ensure("illegal protocols are refused", not r.ok, ctx)
        H.ensure("nothing written", not os.path.exists(dst), ctx)
        return
    if "any" not in verdicts:
        H.ensure("legal protocols are converted", r.ok, (ctx, r))
    if not r.ok:
        return
    raw = open(dst, "rb").read().decode("utf-8")
    H.ensure("a Maccor procedure file", raw.splitlines()[:3] == ['<?xml version="1.0" encoding="UTF-8"?>', '<?maccor-application progid="Maccor Procedure File"?>', "<MaccorTestProcedure>"], raw[:200])
    root = ET.fromstring(raw.encode("utf-8"))
    hd = root.find("header")
    if own:
        H.ensure("the given header", hd is not None and [(x.tag, (x.text or "").strip(), [(y.tag, y.text) for y in x]) for x in hd]
                 == [("BuildTestVersion", "", [("major", "1"), ("minor", "5")]), ("ProcDesc", header["ProcDesc"], [])], ET.tostring(hd))

    def tree(x):
        if not len(x):
            return (x.text or "") if x.tag not in ("Ends", "Reports") else {}
        out = {}
        for y in x:
            out.setdefault(y.tag, []).append(tree(y))
        return {k: v if len(v) > 1 else v[0] for k, v in out.items()}
    steps = [tree(x) for x in root.find("ProcSteps")]
    check_flow(H, st, steps, tags, counts, jumps)
