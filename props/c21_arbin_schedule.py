"""C21: the Arbin schedule made from a Maccor procedure does what the procedure does."""
import copy
import os
import re
from collections import OrderedDict
from fractions import Fraction as F
from vc.harness import harness
from vc.values import and_, or_, not_, implies
from . import maccor_gen as g

M2A = "beep.protocol.maccor_to_arbin"

META = {
    "title": "The Arbin schedule made from a Maccor procedure does what the procedure does",
    "statement": "Converting a Maccor step gives an Arbin step with the same label and control: rest, constant current in amperes or C-rate, constant voltage, or both when the Maccor step has a limit, with the same set value, negative for a discharge. The limits of the Arbin step are one per Maccor end condition, in order, with the same quantity, comparison, threshold (a discharge current is negative, so its comparison turns around; times in seconds whatever their length) and destination, then one logging limit per Maccor report with the same quantity and value, numbered without gap; m_uLimitNum is their number; a step without ends advances at once. A Do step resets the counter of its loop; the Loop step increments it and returns to the step after the nearest Do of the same number before it until the count is reached; an AdvCycle increments the cycle. A Loop without Do, unsupported modes, types, ends and reports are refused with an error. The procedure is left unchanged. The schedule written holds exactly one step per Maccor step, numbered in order, the number of steps, the requested safety ranges, and everything else of the template schedule.",
    "over": ["inputs"],
    "qtext": "every step kind, limit, list of 0-2 end conditions and 0-2 reports with every value, every arrangement of Do and Loop steps in procedures of up to 4 steps",
    "why": "tests convert one diagnostic procedure and look at a few labels; signs, turned comparisons, single conditions, long times and nested loops are combinatorial",
    "files": ["beep/protocol/maccor_to_arbin.py", "beep/protocol/arbin.py"],
    "mechanism": [{"name": "create_metadata", "where": "beep/protocol/maccor_to_arbin.py:125"}, {"name": "compile_to_arbin", "where": "beep/protocol/maccor_to_arbin.py:160"},
                  {"name": "convert_end_to_limit", "where": "beep/protocol/maccor_to_arbin.py:420"}, {"name": "create_sdu", "where": "beep/protocol/maccor_to_arbin.py:60"}],
    "observe": ["Arbin steps returned by compile_to_arbin", ".sdu file written by create_sdu"],
    "level": "proof",
    "level_note": "step conversion proved for all values and every combination of step kind and 0-2 end conditions / 0-2 reports (longer lists sampled), loop destinations for every arrangement of up to 4 steps (longer ones sampled); the .sdu file is a bounded stand-in (generated procedures read back)",
    "assumptions": ["loadfn reads the step and limit templates of the package", "a CCCV current given as C-rate is passed on as number (the unit Arbin applies is not judged)"],
    "bounded": ["sdu_file: generated procedures of up to 8 steps"],
}

NEG = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "=": "="}


def kinds():
    out = [("Rest", None, None, False), ("AdvCycle", None, None, False), ("End", None, None, False), ("Do 1", None, None, False), ("Do 2", None, None, False)]
    for t in ("Charge", "Dischrge"):
        out += [(t, "Current", None, False), (t, "Current", "Voltage", False), (t, "Current", None, True), (t, "Current", "Voltage", True), (t, "Voltage", None, False), (t, "Voltage", "Current", False)]
    return out


def ctype(stype, mode, lim, crate):
    if mode is None:
        return "Rest" if stype in ("Rest", "End") else "Set Variable(s)"
    if lim is not None:
        return "CCCV"
    return "Voltage(V)" if mode == "Voltage" else "C-Rate" if crate else "Current(A)"


def draw_ends(H, stype, ct, lo, hi):
    ks = [("StepTime", "="), ("Voltage", ">= "), ("Voltage", "<=")]
    if ct in ("CCCV", "Voltage(V)"):
        ks += [("Current", ">="), ("Current", "<="), ("Current", "<= ")]
    ends = []
    for i in range(H.choice("n_ends", list(range(lo, hi + 1)))):
        k, op = H.choice("end%d" % i, ks if i == 0 or not H.sym else ks[:2] + ks[-2:-1])
        ends.append((k, op, g.value_text(H, "e%d" % i, k), H.choice("goto%d" % i, [8, 2] if H.sym else [8, 9, 2]) if i < 1 else 9 - i))
    return ends


def draw_reports(H, hi):
    return [(k, g.value_text(H, "r%d" % i, k)) for i, k in ((i, H.choice("rep%d" % i, ["StepTime", "Voltage", "Current"])) for i in range(H.choice("n_rep", list(range(hi + 1)))))]


def val(H, kind, text):
    return g.seconds(H, text) if kind == "StepTime" else H.num(text)


def number(H, x):
    """a limit or control value as the schedule file will hold it: text of a number"""
    return H.num(x)


LIMIT = ["m_bStepLimit", "m_bLogDataLimit", "m_szGotoStep"] + ["Equation%d_sz%s" % (i, p) for i in range(3) for p in ("Left", "CompareSign", "Right")]


def check_limits(H, st, labels, stype, ct, ends, reports, i):
    n = max(len(ends), 1) + len(reports)
    H.ensure("number of limits as announced", st["m_uLimitNum"] == str(n), st)
    H.ensure("limits numbered without gap", [k for k in st if k.startswith("Limit")] == ["Limit%d" % j for j in range(n)], list(st))
    if [k for k in st if k.startswith("Limit")] != ["Limit%d" % j for j in range(n)]:
        return
    for j in range(n):
        l = st["Limit%d" % j]
        H.ensure("fields of a limit", sorted(l) == sorted(LIMIT) and all(l[f] == "" for f in LIMIT[6:]), l)
    if not ends:
        l = st["Limit0"]
        H.ensure("a step without ends advances at once", l["m_bStepLimit"] == "1" and l["m_szGotoStep"] == "Next Step" and l["Equation0_szLeft"] == "PV_CHAN_Step_Time" and l["Equation0_szCompareSign"] == ">" and l["Equation0_szRight"] == "0", l)
    for j, (k, op, t, to) in enumerate(ends):
        l = st["Limit%d" % j]
        H.ensure("an end ends the step", l["m_bStepLimit"] == "1" and l["m_bLogDataLimit"] == "1", l)
        H.ensure("destination of an end", or_(H.eq(l["m_szGotoStep"], labels[to]), and_(to == i + 1, l["m_szGotoStep"] == "Next Step")), l)
        turned = k == "Current" and stype == "Dischrge"
        H.ensure("quantity of an end", l["Equation0_szLeft"] == {"StepTime": "PV_CHAN_Step_Time", "Voltage": "PV_CHAN_Voltage", "Current": "PV_CHAN_CV_Stage_Current" if ct == "CCCV" else "PV_CHAN_Current"}[k], l)
        H.ensure("comparison of an end", l["Equation0_szCompareSign"] == (">" if k == "StepTime" else NEG[op.strip()] if turned else op.strip()), l)
        H.ensure("threshold of an end", H.close(number(H, l["Equation0_szRight"]), (-1 if turned else 1) * val(H, k, t), F(1, 10 ** 6) if k == "StepTime" else 0), (t, l))
    for j, (k, t) in enumerate(reports):
        l = st["Limit%d" % (max(len(ends), 1) + j)]
        H.ensure("a report only logs", l["m_bStepLimit"] == "0" and l["m_bLogDataLimit"] == "1" and l["m_szGotoStep"] == "Next Step", l)
        H.ensure("quantity of a report", l["Equation0_szLeft"] == {"StepTime": "DV_Time", "Voltage": "DV_Voltage", "Current": "DV_Current"}[k] and l["Equation0_szCompareSign"] == ">", l)
        H.ensure("value of a report", H.close(number(H, l["Equation0_szRight"]), val(H, k, t), F(1, 10 ** 6) if k == "StepTime" else 0), (t, l))


def check_control(H, st, stype, mode, lim, crate, value, limit):
    H.ensure("control type", st["m_szStepCtrlType"] == ctype(stype, mode, lim, crate), st)
    sign = -1 if stype == "Dischrge" else 1
    if mode is None:
        want = {"AdvCycle": ("15", "1", "0"), "Do 1": ("65536", "0", "0"), "Do 2": ("131072", "0", "0"), "Loop 1": ("0", "2", "0"), "Loop 2": ("0", "4", "0")}.get(stype, ("", "", ""))
        H.ensure("counters of a flow step", (st["m_szCtrlValue"], st["m_szExtCtrlValue1"], st["m_szExtCtrlValue2"]) == want, st)
        return
    cur, volt = (value, limit) if mode == "Current" else (limit, value)
    if lim is None:
        H.ensure("set value", H.eq(number(H, st["m_szCtrlValue"]), sign * H.num(cur) if mode == "Current" else H.num(volt)), (value, st))
        H.ensure("no second set value", st["m_szExtCtrlValue1"] == "" and st["m_szExtCtrlValue2"] == "", st)
    else:
        H.ensure("set current", H.eq(number(H, st["m_szCtrlValue"]), sign * H.num(cur)), (cur, st))
        H.ensure("set voltage", H.eq(number(H, st["m_szExtCtrlValue1"]), H.num(volt)), (volt, st))
        H.ensure("no internal resistance compensation", st["m_szExtCtrlValue2"] == "0", st)


def check_rest(H, st, label, rng, blank):
    H.ensure("label", H.eq(st["m_szLabel"], label), st)
    H.ensure("current range", st["m_szCurrentRange"] == rng, st)
    seen = {"m_szLabel", "m_szCurrentRange", "m_uLimitNum", "m_szStepCtrlType", "m_szCtrlValue", "m_szExtCtrlValue1", "m_szExtCtrlValue2"}
    H.ensure("other fields as in the template", all(st.get(f) == blank[f] for f in blank if f not in seen) and all(f in blank or f.startswith("Limit") for f in st), st)


def blank_body():
    from monty.serialization import loadfn
    from beep.protocol import PROTOCOL_SCHEMA_DIR
    return loadfn(os.path.join(PROTOCOL_SCHEMA_DIR, "arbin_schedule_schema.yaml"))["step_blank_body"]


def snap(s):
    return copy.deepcopy(s)


def maccor(H, stype, mode, lim, value, limit, ends, reports, plain=False):
    st = g.step(stype, mode, value, None if lim is None else OrderedDict([(lim, limit)]),
                [g.end_entry(k, op, t, str(to + 1).zfill(3)) for k, op, t, to in ends], [g.report_entry(k, t) for k, t in reports])
    if plain:
        for f in ("Ends", "Reports"):
            if st[f] is not None:
                st[f] = {k: dict(v) if isinstance(v, dict) else [dict(x) for x in v] for k, v in st[f].items()}
        st = dict(st)
    return st


def one_step(H, ends, reports, kind, texts=True):
    stype, mode, lim, crate = kind
    value = limit = None
    if mode is not None:
        value = g.value_text(H, "set", mode)
        limit = None if lim is None else g.value_text(H, "limit", lim)
    i = 7
    labels = ["%d-n%d" % (k + 1, k) for k in range(12)]
    st = maccor(H, stype, mode, lim, value + "C" if crate else value, limit, ends, reports, len(ends) < 3 and H.choice("plain_dict", [True, False]))
    st["StepNote"] = "a note"
    cls = H.mod(M2A).ProcedureToSchedule
    H.cover("inputs")
    before = snap(st)
    default = not ends if H.sym else H.choice("default_range", [True, False])
    r = H.run(cls([]).compile_to_arbin, st, i, labels, {}, **({} if default else {"current_range": "Range2"}))
    H.ensure("converted", r.ok, r)
    if not r.ok:
        return
    H.ensure("the procedure step is unchanged", H.eq(st, before), st)
    check_rest(H, r.value, "8-a note", "Parallel-High" if default else "Range2", blank_body())
    check_control(H, r.value, stype, mode, lim, crate, value, limit)
    check_limits(H, r.value, labels, stype, ctype(stype, mode, lim, crate), ends, reports, i)


@harness("C21", "step_ends", conc=300, targets=[M2A], budget=500)
def h_ends(H):
    kind = H.choice("kind", kinds())
    one_step(H, draw_ends(H, kind[0], ctype(*kind), 0, 2 if H.sym else 4), draw_reports(H, 0 if H.sym else 3), kind)


@harness("C21", "step_reports", conc=200, targets=[M2A], budget=300)
def h_reports(H):
    kind = H.choice("kind", kinds()[:1] + kinds()[5:8])
    n = H.choice("some_ends", [0, 1, 2])
    ends = [("StepTime", "=", g.value_text(H, "t", "StepTime"), 8), ("Voltage", "<=", g.value_text(H, "v", "Voltage"), 2)][:n]
    one_step(H, ends, draw_reports(H, 2 if H.sym else 4), kind)


@harness("C21", "loop_step", conc=200, targets=[M2A])
def h_loop(H):
    n = H.choice("counter", [1, 2])
    count = H.inttext("count", 1, 5000)
    i = H.choice("at", [7, 3])
    labels = ["%d-n%d" % (k + 1, k) for k in range(12)]
    back = H.choice("back", [1, 2, 3])
    to = H.choice("to", [i + 1, 10])
    reports = draw_reports(H, 1)
    st = maccor(H, "Loop %d" % n, None, None, None, None, [("Loop Cnt", "=", count, to)], reports, H.choice("plain_dict", [True, False]))
    cls = H.mod(M2A).ProcedureToSchedule
    before = snap(st)
    for again in (0, 1):
        r = H.run(cls([]).compile_to_arbin, st, i, labels, {i: labels[back]})
        H.cover("inputs")
        H.ensure("converted", r.ok, r)
        if not r.ok:
            return
        a = r.value
        H.ensure("the procedure step is unchanged", H.eq(st, before), st)
        check_control(H, a, "Loop %d" % n, None, None, False, None, None)
        k = 2 + len(reports)
        names = ["Limit%d" % j for j in range(k)]
        H.ensure("number of limits as announced", a["m_uLimitNum"] == str(k), a)
        H.ensure("limits numbered without gap", [x for x in a if x.startswith("Limit")] == names, list(a))
        if not all(x in a for x in names):
            return
        l0, l1 = a["Limit0"], a["Limit1"]
        H.ensure("the loop returns while the count is not reached", and_(l0["m_bStepLimit"] == "1", H.eq(l0["m_szGotoStep"], labels[back]), l0["Equation0_szLeft"] == "TC_Counter%d" % n, l0["Equation0_szCompareSign"] == "<", H.eq(number(H, l0["Equation0_szRight"]), H.num(count))), l0)
        H.ensure("the loop ends when the count is reached", and_(l1["m_bStepLimit"] == "1", or_(H.eq(l1["m_szGotoStep"], labels[to]), and_(to == i + 1, l1["m_szGotoStep"] == "Next Step")), l1["Equation0_szLeft"] == "TC_Counter%d" % n, l1["Equation0_szCompareSign"] == "=", H.eq(number(H, l1["Equation0_szRight"]), H.num(count))), l1)


def loop_target(types, j):
    n = types[j].split()[1]
    for d in range(j - 1, -1, -1):
        if types[d] == "Do " + n:
            return d + 1
    return None


@harness("C21", "loop_destinations", conc=300, targets=[M2A])
def h_meta(H):
    n = H.choice("n", [1, 2, 3, 4] if H.sym else [1, 2, 3, 5, 8])
    types = [H.choice("t%d" % i, ["Do 1", "Loop 1", "Do 2", "Loop 2", "Rest"]) for i in range(n)]
    note = H.choice("note", [None, "x-y"])
    steps = [OrderedDict(StepType=t, StepNote=note) for t in types]
    H.cover("inputs")
    r = H.run(H.mod(M2A).ProcedureToSchedule(steps).create_metadata)
    loops = [j for j in range(n) if types[j].startswith("Loop")]
    if any(loop_target(types, j) is None for j in loops):
        H.ensure("a loop without start is refused", not r.ok, (types, r))
        return
    H.ensure("converted", r.ok, (types, r))
    if not r.ok:
        return
    labels = ["%d-%s" % (i + 1, s["StepNote"]) for i, s in enumerate(steps)]
    H.ensure("labels", r.value[0] == labels, r.value)
    H.ensure("a loop returns to the step after its start", dict(r.value[1]) == {j: labels[loop_target(types, j)] for j in loops}, (types, r.value))


@harness("C21", "refusals", conc=100, targets=[M2A])
def h_refuse(H):
    what = H.choice("what", ["type", "mode", "limit", "end", "report", "current end", "end current of a rest", "limited rest", "flow"])
    stype, mode, value, lim, ends, reports = "Charge", "Current", g.value_text(H, "v", "Current"), None, [("StepTime", "=", "00:01:00", 8)], []
    if what == "type":
        stype, mode = H.choice("t", ["Chg Func", "FastWave", "Discharge", "Pause"]), H.choice("m", ["Current", "Voltage"])
    elif what == "mode":
        mode = H.choice("m", ["Power", "Resistance"])
    elif what == "limit":
        lim = H.choice("l", ["Current", "Power"])
    elif what == "end":
        ends = [(H.choice("e", ["Power", "Half Cycle", "-dV"]), "=", value, 8)]
    elif what == "report":
        reports = [(H.choice("r", ["Power", "Energy"]), value)]
    elif what == "current end":
        ends = [("Current", "<=", value, 8)]
    elif what == "end current of a rest":
        stype, mode, value, ends = "Rest", None, None, [("Current", "<=", value, 8)]
    elif what == "limited rest":
        stype, mode, lim = "Rest", None, "Voltage"
    elif what == "flow":
        stype, mode, value = H.choice("t", ["SubRoutine", "FastWave", "Pause"]), None, None
    st = maccor(H, stype, mode, lim, value, value, ends, reports)
    H.cover("inputs")
    r = H.run(H.mod(M2A).ProcedureToSchedule([]).compile_to_arbin, st, 7, ["%d-x" % k for k in range(12)], {})
    H.ensure("what the schedule cannot express is refused", not r.ok, (what, r))


def procedure(H, n):
    """a well nested procedure: [(kind, value, limit, ends, reports)] then an End step"""
    out = []
    open_ = []
    for i in range(n):
        opts = ["step", "step", "step", "adv"]
        if len(open_) < 2 and n - i > len(open_) + 2:
            opts.append("do")
        if open_:
            opts += ["loop"]
        what = H.choice("what%d" % i, opts)
        if n - i <= len(open_):
            what = "loop"
        p = _Pre(H, "s%d" % i)
        if what == "do":
            k = 1 if 1 not in open_ else 2
            open_.append(k)
            out.append((("Do %d" % k, None, None, False), None, None, [], []))
        elif what == "loop":
            k = open_.pop()
            out.append((("Loop %d" % k, None, None, False), None, None, [("Loop Cnt", "=", str(H.int("count%d" % i, 1, 99)), i + 1)], []))
        elif what == "adv":
            out.append((("AdvCycle", None, None, False), None, None, [], []))
        else:
            kind = p.choice("kind", kinds()[:1] + kinds()[5:])
            stype, mode, lim, crate = kind
            value = None if mode is None else g.value_text(p, "set", mode) + ("C" if crate else "")
            limit = None if lim is None else g.value_text(p, "limit", lim)
            ends = [(k, op, t, i + 1 if H.choice("next%d_%d" % (i, j), [True, False]) else H.int("goto%d_%d" % (i, j), 0, n)) for j, (k, op, t, _) in enumerate(draw_ends(p, stype, ctype(*kind), 1, 3))]
            out.append((kind, value, limit, ends, draw_reports(p, 2)))
    out.append((("End", None, None, False), None, None, [], []))
    return out


class _Pre:
    def __init__(self, H, p):
        self._h, self._p = H, p

    def __getattr__(self, a):
        f = getattr(self._h, a)
        if a in ("choice", "int", "real", "numtext", "text", "bool", "inttext"):
            return lambda name, *x, **k: f(self._p + name, *x, **k)
        return f


def sections(path):
    """{section: {field: value}} of a schedule file, in order, without the reader under test"""
    out, cur = OrderedDict(), None
    for l in open(path, "rb").read().decode("latin-1").split("\r\n"):
        m = re.fullmatch(r"\[(.+)\]", l)
        if m:
            cur = out[m.group(1)] = OrderedDict()
        elif l:
            k, v = l.split("=", 1)
            cur[k] = v
    return out


@harness("C21", "sdu_file", proof=False, conc=60, targets=[M2A])
def h_sdu(H):
    d = H.tmpdir()
    ns, nsafe = H.choice("template_steps", [0, 1, 2, 3, 12, 105]), H.int("safety", 0, 3)
    tmpl = OrderedDict()
    tmpl["Signature"] = OrderedDict(m_szTag="a=b", m_szVersion="3")
    tmpl["Schedule"] = OrderedDict(m_uStepNum=str(ns), m_VoltageSafetyScope="1^2", m_AuxTempSafetyScope="1^2", m_CurrentSafetyScope="1^2", m_AuxSafetyEnabled="0", m_szName="cell")
    for k in range(ns):
        tmpl["Schedule_Step%d" % k] = OrderedDict(m_uLimitNum="1", m_szLabel="old%d" % k)
        tmpl["Schedule_Step%d_Limit0" % k] = OrderedDict(m_szGotoStep="Next Step")
    for k in range(nsafe):
        tmpl["Schedule_UserDefineSafety%d" % k] = OrderedDict(m_szLabel="safe%d" % k, m_uValue=str(k))
        if H.choice("equation%d" % k, [True, False]):
            tmpl["Schedule_UserDefineSafety%d_Equation0" % k] = OrderedDict(szLeft="x%d" % k)
    tmpl["Comment"] = OrderedDict(text="end")
    src = d + "/t.sdu"
    with open(src, "wb") as f:
        f.write(("\r\n".join("\r\n".join(["[%s]" % s] + ["%s=%s" % kv for kv in b.items()]) for s, b in tmpl.items()) + "\r\n").encode("latin-1"))
    proc = procedure(H, H.int("n", 1, 8))
    steps = [maccor(H, kd[0], kd[1], kd[2], v, l, en, rp, H.choice("plain_dict", [True, False])) for kd, v, l, en, rp in proc]
    for i, s in enumerate(steps):
        s["StepNote"] = H.choice("note%d" % i, [None, "reset 2-1", "a=b"])
    v = sorted([H.real("v0", 0, 5, decimals=3), H.real("v1", 0, 5, decimals=3)])
    t = H.choice("temp", [None, [0, 60], [-10.5, 55]])
    c = H.choice("cur", [None, [-3.3, 3.3]])
    kw = dict(global_v_range=v)
    if t is not None:
        kw["global_temp_range"] = t
    if c is not None:
        kw["global_current_range"] = c
    before = snap(steps)
    out = d + "/o.sdu"
    H.cover("inputs")
    r = H.run(H.mod(M2A).ProcedureToSchedule(steps).create_sdu, src, out, "Range3", **kw)
    H.ensure("written", r.ok, r)
    if not r.ok:
        return
    H.ensure("the procedure is unchanged", steps == before, steps)
    got = sections(out)
    n = len(steps)
    top = got.get("Schedule", {})
    fmt = lambda x: "%.6f^%.6f" % tuple(x)
    H.ensure("number of steps and safety ranges", top.get("m_uStepNum") == str(n) and top.get("m_VoltageSafetyScope") == fmt(v) and top.get("m_AuxTempSafetyScope") == fmt(t or [-100, 100])
             and top.get("m_CurrentSafetyScope") == fmt(c or [-30, 30]) and top.get("m_szName") == "cell", top)
    H.ensure("temperature safety enabled with a range", (top.get("m_AuxSafetyEnabled") == "0") == (t is None), top)
    others = [s for s in got if not re.match(r"Schedule_Step\d+", s)]
    H.ensure("the rest of the template is kept", [(s, dict(got[s])) for s in sorted(others) if s != "Schedule"] == [(s, dict(tmpl[s])) for s in sorted(tmpl) if not re.match(r"Schedule_Step\d+", s) and s != "Schedule"], others)
    H.ensure("one step per Maccor step, in order", [s for s in got if re.fullmatch(r"Schedule_Step\d+", s)] == ["Schedule_Step%d" % i for i in range(n)], list(got))
    labels = ["%d-%s" % (i + 1, s["StepNote"]) for i, s in enumerate(steps)]
    types = [p[0][0] for p in proc]
    blank = blank_body()
    for i, (kind, value, limit, ends, reports) in enumerate(proc):
        a = OrderedDict(got.get("Schedule_Step%d" % i, {}))
        for s in got:
            if s.startswith("Schedule_Step%d_Limit" % i):
                a[s.split("_", 2)[2]] = got[s]
        check_rest(H, a, labels[i], "Range3", blank)
        check_control(H, a, *kind, value.replace("C", "") if value else value, limit)
        if types[i].startswith("Loop"):
            H.ensure("a loop returns to the step after its start", a.get("Limit0", {}).get("m_szGotoStep") == labels[loop_target(types, i)] and a.get("m_uLimitNum") == "2" and "Limit1" in a, (types, a))
        else:
            check_limits(H, a, labels, types[i], ctype(*kind), ends, reports, i)
