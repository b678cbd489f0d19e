"""C07: control flow of a Maccor procedure survives the conversion to BioLogic techniques and sequences."""
import itertools
from collections import OrderedDict
from vc.harness import harness
from vc.values import and_, or_, not_, implies
from . import maccor_gen as g
from .c06_maccor_step import CONV, parse_mps

M2B = "beep.protocol.maccor_to_biologic_mb"

META = {
    "title": "Loops, jumps and step order of a Maccor procedure survive conversion to BioLogic",
    "statement": "In the BioLogic protocol made from a Maccor procedure every step appears exactly once, in order: a rest/charge/discharge step as one sequence (two if it has a limit), a loop end as one loop sequence that returns to the first sequence after its Do and repeats the count minus one times. A loop that contains another loop becomes a technique of its own followed by a loop technique that returns to it the number of times the Maccor loop gives; steps before and after form their own techniques, techniques are numbered consecutively from 1 and the header gives their number. Every end condition continues where the Maccor step says: next step -> next sequence, the End step -> end of the technique (9999), any other step -> the first sequence of that step. Jumps out of the technique or back over the start or end of a loop are rejected with an error, never converted to some other target. The input procedure is not modified.",
    "over": ["inputs"],
    "qtext": "every procedure with at most doubly nested loops, every loop count and every jump target",
    "why": "tests check one example of each construct; the interplay of splits, loops, technique boundaries and jumps is combinatorial",
    "files": ["beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "_partition_steps_into_techniques", "where": "beep/protocol/maccor_to_biologic_mb.py:603"},
                  {"name": "_convert_steps_to_seqs", "where": "beep/protocol/maccor_to_biologic_mb.py:954"},
                  {"name": "_convert_step_parts", "where": "beep/protocol/maccor_to_biologic_mb.py:222"}],
    "observe": ["MaccorToBiologicMb.convert: .mps file"],
    "level": "proof",
    "level_note": "the jump of a step is proved for every step number, position map and bounds (one_jump); whole procedures are proved for every loop count on every well-formed structure of up to 5 steps with every jump target (layout; bounded in structure), longer procedures are a bounded stand-in through convert() and the written file",
    "assumptions": ["unit conversions satisfy C05's contracts"],
    "bounded": ["layout: structures of up to 5 steps, all loop counts", "mps_file: generated procedures of up to 14 steps"],
}


# ------------------------------------------------------------------ one step: every number
@harness("C07", "one_jump", conc=300, contracts=list(CONV.values()), targets=[M2B])
def h_jump(H):
    conv = H.mod(M2B).MaccorToBiologicMb()
    s = H.int("step_num", 1, 60)
    seq = H.int("seq_num", 0, 80)
    t = H.int("target_seq", 0, 80)
    goto = H.int("goto", 1, 70)
    lo, hi = s - H.int("above_lo", 0, 20), s + H.int("below_hi", 1, 20)
    end = hi + H.int("to_end", 0, 20)
    H.assume(goto != s)
    known = H.bool("target_known")

    class Map:                     # seq_nums_by_step_num: any map that knows this step
        _vc_model = True

        def __contains__(self, k):
            return H.case(k == s) or (H.case(k == goto) and H.case(known))

        def __getitem__(self, k):
            if H.case(k == s):
                return [seq]
            if H.case(k == goto) and H.case(known):
                return [t]
            raise KeyError(k)

    n = H.choice("n", [1, 2, 3])
    which = H.choice("which", list(range(n)))
    ends = []
    for i in range(n):
        k, op = g.KINDS[(2 * i + n) % 5]
        ends.append(g.end_entry(k, op, g.value_text(H, "e%d" % i, k), _num(H, goto) if i == which else _num(H, s + 1)))
    st = g.step("Rest", None, None, None, ends, [g.report_entry("StepTime", "00:00:01")])
    H.cover("inputs")
    r = H.run(conv._convert_step_parts, step_parts=[st], step_num=s, seq_nums_by_step_num=Map(), goto_lowerbound=lo,
              goto_upperbound=hi, end_step_num=end)
    if not r.ok:
        H.ensure("only impossible jumps are rejected", not_(or_(goto == s + 1, goto == end, and_(goto >= lo, goto <= hi, known))), r)
        return
    H.ensure("one sequence", len(r.value) == 1)
    q = r.value[0]
    H.ensure("jumps out of the allowed range are rejected", or_(goto == end, and_(goto >= lo, goto <= hi)), q)
    want = H.ite(goto == s + 1, seq + 1, H.ite(goto == end, 9999, t))
    for i in range(3):
        if i == which:
            H.ensure("jump target", q["lim%d_seq" % (i + 1)] == want, q)
            H.ensure("jump action", (q["lim%d_action" % (i + 1)] == "Next sequence") == H.case(goto == s + 1), q)
        else:
            H.ensure("other limits continue with the next sequence", q["lim%d_seq" % (i + 1)] == seq + 1, q)
            H.ensure("other actions", q["lim%d_action" % (i + 1)] == "Next sequence", q)


def _num(H, n):
    if H.sym:
        from vc.values import to_text
        return to_text(n)
    return str(n).zfill(3)


# ------------------------------------------------------------------ whole procedures
def structures(n, maxsplit=1):
    """well-formed token lists of length n: R rest, S split step, A AdvCycle, D1/E1/D2/E2"""
    out = []

    def ok_loop(toks):
        return any(t in ("R", "S") for t in toks)

    def go(toks, depth, starts):
        if len(toks) == n:
            if depth == 0 and ok_loop(toks):
                out.append(tuple(toks))
            return
        for t in ("R", "S", "A"):
            if t == "S" and toks.count("S") >= maxsplit:
                continue
            go(toks + [t], depth, starts)
        if depth < 2:
            go(toks + ["D%d" % (depth + 1)], depth + 1, starts + [len(toks)])
        if depth > 0 and ok_loop(toks[starts[-1]:]):
            go(toks + ["E%d" % depth], depth - 1, starts[:-1])
    go([], 0, [])
    return out


def layout(toks):
    """techniques: dict(num, first, last (step numbers), loop=step number of the Loop or None)"""
    techs, run, i = [], [], 0
    num = 1

    def flush():
        nonlocal num, run
        if run:
            techs.append(dict(num=num, first=run[0], last=run[-1], loop=None))
            num += 1
            run = []
    while i < len(toks):
        if toks[i] == "D1":
            j = i
            while toks[j] != "E1":
                j += 1
            if "D2" in toks[i:j]:
                flush()
                techs.append(dict(num=num, first=i + 2, last=j, loop=j + 1))
                num += 2
                i = j + 1
                continue
        run.append(i + 1)
        i += 1
    flush()
    return techs


def plan(toks, tech):
    """seqs: [(kind, step, part)], first: step number -> first sequence"""
    seqs, first = [], {}
    for s in range(tech["first"], tech["last"] + 1):
        first[s] = len(seqs)
        t = toks[s - 1]
        if t == "R":
            seqs.append(("step", s, 0))
        elif t == "S":
            seqs += [("step", s, 0), ("step", s, 1)]
        elif t[0] == "E":
            seqs.append(("loop", s, 0))
    return seqs, first


def lower(toks, tech, s):
    lo = tech["first"]
    for k in range(tech["first"], s):
        if toks[k - 1][0] in "DE":
            lo = k + 1
    return lo


def legal(toks, s, goto):
    tech = [t for t in layout(toks) if t["first"] <= s <= t["last"]][0]
    return goto in (s + 1, len(toks) + 1) or lower(toks, tech, s) <= goto <= tech["last"]


def build(H, toks, counts, gotos, off=0):
    steps = []
    for i, t in enumerate(toks):
        s = i + 1
        nxt = str(s + 1 + off).zfill(3)
        if t in ("R", "S"):
            ends = [g.end_entry("Voltage", "<=", "2.%03d" % (s * 7), nxt)]
            for j, gt in enumerate(gotos.get(s, [])):
                ends.append(g.end_entry("StepTime", "=", "00:%02d:00" % (j + 1), str(gt).zfill(3)))
            rep = [g.report_entry("StepTime", "00:00:%02d" % s)]
            if t == "R":
                steps.append(g.step("Rest", None, None, None, ends, rep))
            else:
                steps.append(g.step("Charge", "Current", "1.%03d" % s, {"Voltage": "4.%03d" % s}, ends, rep))
        elif t == "A":
            steps.append(g.step("AdvCycle"))
        elif t[0] == "D":
            steps.append(g.step("Do " + t[1]))
        else:
            steps.append(g.step("Loop " + t[1], None, None, None, [g.end_entry("Loop Cnt", "=", counts[s], nxt)]))
    steps.append(g.step("End"))
    return steps


def check_tech(H, toks, tech, seqs, counts, gotos, num, end=None):
    # seqs: list of dict-like sequences of one technique, num(x) -> integer
    end = len(toks) + 1 if end is None else end
    want, first = plan(toks, tech)
    H.ensure("every step once", len(seqs) == len(want), (toks, seqs))
    if len(seqs) != len(want):
        return
    for n, ((kind, s, part), q) in enumerate(zip(want, seqs)):
        H.ensure("sequences numbered from 0", num(q["Ns"]) == n, q)
        if kind == "loop":
            H.ensure("loop sequence", q["ctrl_type"] == "Loop", q)
            d = s
            while toks[d - 1] != "D" + toks[s - 1][1]:
                d -= 1
            H.ensure("loop returns to the first sequence after its Do", num(q["ctrl_seq"]) == first[d], (toks, q))
            c = H.num(counts[s])
            H.ensure("loop repeats", num(q["ctrl_repeat"]) == H.ite(c >= 1, c - 1, 0), (toks, counts, q))
            H.ensure("loop continues", num(q["lim1_seq"]) == n + 1, q)
            continue
        split = toks[s - 1] == "S"
        H.ensure("step kind", q["ctrl_type"] == ("Rest" if not split else "CV" if part else "CC"), (toks, q))
        H.ensure("step order", str(q["rec1_value"]).startswith("%d." % s), (toks, q))
        H.ensure("continues with the next sequence", num(q["lim1_seq"]) == n + 1, (toks, q))
        if split and not part:
            continue
        for j, gt in enumerate(gotos.get(s, [])):
            p = "lim%d_" % (j + 2)
            w = n + 1 if gt == s + 1 else 9999 if gt == end else first[gt]
            H.ensure("jump target", num(q[p + "seq"]) == w, (toks, gotos, q))
            H.ensure("jump action", q[p + "action"] == ("Next sequence" if gt == s + 1 else "Goto sequence"), (toks, gotos, q))


STRUCT = [t for n in range(1, 6) for t in structures(n)]


@harness("C07", "layout", conc=60, targets=[M2B], budget=400)
def h_layout(H):
    conv = H.mod(M2B).MaccorToBiologicMb()
    toks = H.choice("structure", STRUCT)
    counts = {i + 1: H.inttext("n%d" % i, -1, 1000) for i, t in enumerate(toks) if t[0] == "E"}
    ms = [i + 1 for i, t in enumerate(toks) if t in ("R", "S")]
    s = H.choice("jump_from", ms)
    goto = H.choice("jump_to", [k for k in range(1, len(toks) + 2) if k != s])
    steps = build(H, toks, counts, {s: [goto]})
    H.cover("inputs")
    r = H.run(_convert, conv, steps)
    if not r.ok:
        H.ensure("only illegal jumps are rejected", not legal(toks, s, goto), (toks, s, goto, r))
        return
    H.ensure("illegal jumps are rejected", legal(toks, s, goto), (toks, s, goto))
    techs = layout(toks)
    H.ensure("techniques", len(r.value) == len(techs), (toks, r))
    if len(r.value) != len(techs) or not legal(toks, s, goto):
        return
    for t, (tp, seqs) in zip(techs, r.value):
        H.ensure("technique number", tp.technique_num == t["num"], toks)
        H.ensure("technique loops", tp.tech_does_loop == (t["loop"] is not None), toks)
        if t["loop"] is not None:
            H.ensure("technique loop count", tp.num_loops == H.num(counts[t["loop"]]), toks)
        check_tech(H, toks, t, seqs, counts, {s: [goto]}, lambda x: x)


FLAT = [t for t in STRUCT if "D2" not in t and len(t) <= 4]


@harness("C07", "offset", conc=60, targets=[M2B], budget=400)
def h_offset(H):
    """a technique that starts somewhere inside the procedure"""
    conv = H.mod(M2B).MaccorToBiologicMb()
    toks = H.choice("structure", FLAT)
    off, n = 7, len(toks)
    end = off + n + 4
    counts = {i + 1: H.inttext("n%d" % i, -1, 1000) for i, t in enumerate(toks) if t[0] == "E"}
    s = H.choice("jump_from", [i + 1 for i, t in enumerate(toks) if t in ("R", "S")])
    goto = H.choice("jump_to", [k for k in range(-1, n + 3) if k != s] + [end - off])
    inner = len(toks) % 2 == 0
    steps = build(H, toks, counts, {s: [goto + off]}, off)[:-1]
    if inner:
        for st in steps:
            st["StepType"] = st["StepType"].replace("Do 1", "Do 2").replace("Loop 1", "Loop 2")
    tech = dict(first=1, last=n, loop=None)
    ok = goto == s + 1 or goto == end - off or lower(toks, tech, s) <= goto <= n
    H.cover("inputs")
    r = H.run(conv._convert_steps_to_seqs, steps=steps, step_num_offset=off, end_step_num=end)
    if not r.ok:
        H.ensure("only illegal jumps are rejected", not ok, (toks, s, goto, r))
        return
    H.ensure("illegal jumps are rejected", ok, (toks, s, goto))
    if ok:
        check_tech(H, toks, tech, r.value[0], counts, {s: [goto]}, lambda x: x, end - off)


def _convert(conv, steps):
    return [(tp, conv._convert_steps_to_seqs(steps=tp.steps, step_num_offset=tp.step_num_offset, end_step_num=len(steps))[0])
            for tp in conv._partition_steps_into_techniques(steps[:-1])]


def random_toks(H, maxlen):
    toks, depth, started = [], 0, []
    n = H.int("len", 1, maxlen)
    while len(toks) < n:
        c = H.choice("t%d" % len(toks), ["R", "S", "A", "R", "D", "E", "D", "E"])
        if c == "D":
            if depth == 2:
                c = "R"
            else:
                depth += 1
                started.append(len(toks))
                c = "D%d" % depth
        elif c == "E":
            if depth == 0 or not any(t in "RS" for t in toks[started[-1]:]):
                c = "R"
            else:
                c = "E%d" % depth
                depth -= 1
                started.pop()
        toks.append(c)
    while depth:
        if not any(t in "RS" for t in toks[started[-1]:]):
            toks.append("R")
        toks.append("E%d" % depth)
        depth -= 1
        started.pop()
    if not any(t in "RS" for t in toks):
        toks.append("R")
    return tuple(toks)


@harness("C07", "mps_file", proof=False, conc=250, targets=[M2B])
def h_file(H):
    import copy
    import xmltodict
    d = H.tmpdir()
    conv = H.mod(M2B).MaccorToBiologicMb()
    toks = random_toks(H, 14)
    counts = {i + 1: str(H.int("n%d" % i, 1, 40)) for i, t in enumerate(toks) if t[0] == "E"}
    ms = [i + 1 for i, t in enumerate(toks) if t in ("R", "S")]
    gotos = {}
    for s in ms:
        k = H.choice("jumps%d" % s, [0, 0, 1, 2])
        for j in range(k):
            cand = [x for x in range(1, len(toks) + 2) if x != s and legal(toks, s, x)]
            gotos.setdefault(s, []).append(cand[H.int("g%d_%d" % (s, j), 0, 40) % len(cand)])
    if H.choice("illegal", [0, 0, 0, 1]):
        s = ms[H.int("is", 0, 40) % len(ms)]
        bad = [x for x in range(1, len(toks) + 2) if x != s and not legal(toks, s, x)]
        if bad:
            gotos[s] = [bad[H.int("ib", 0, 40) % len(bad)]]
    steps = build(H, toks, counts, gotos)
    with open(d + "/p.000", "w") as f:
        f.write(xmltodict.unparse({"MaccorTestProcedure": OrderedDict(ProcSteps=OrderedDict(TestStep=steps))}, pretty=True))
    orig = open(d + "/p.000").read()
    # the advancement rules refuse some loops (C08): only the .mps file matters here
    r = H.run(conv.convert, d + "/p.000", d, "out")
    H.ensure("input file untouched", open(d + "/p.000").read() == orig)
    ok = all(legal(toks, s, x) for s, xs in gotos.items() for x in xs)
    if not ok:
        H.ensure("illegal jumps are rejected", not r.ok, (toks, gotos))
        return
    if not r.ok:
        msg = str(r.exc if hasattr(r, "exc") else r)
        H.ensure("converted", "measurement step" in msg or "cycle" in msg, (toks, gotos, r))
        import os
        if not os.path.exists(d + "/out.mps"):
            return
        path = d + "/out.mps"
    else:
        path = r.value[0]
    text = open(path, "rb").read().decode("ISO-8859-1")
    head, got = parse_mps(text)
    techs = layout(toks)
    want_n = sum(2 if t["loop"] else 1 for t in techs)
    H.ensure("header counts techniques", "Number of linked techniques : %d\r\n" % want_n in head, (toks, head[:200]))
    H.ensure("techniques numbered from 1", [x[0] for x in got] == list(range(1, want_n + 1)), (toks, [x[0] for x in got]))
    if [x[0] for x in got] != list(range(1, want_n + 1)):
        return
    k = 0
    for t in techs:
        H.ensure("technique kind", got[k][1] == "Modulo Bat", toks)
        f = got[k][2]
        w = max(len(v) for v in f.values())
        check_tech(H, toks, t, [{a: b[i] for a, b in f.items()} for i in range(w)], counts, gotos, int)
        k += 1
        if t["loop"]:
            H.ensure("loop technique", got[k][1] == "Loop" and got[k][2]["goto Ne"] == [str(t["num"])]
                     and got[k][2]["nt times"] == [counts[t["loop"]]], (toks, counts, got[k]))
            k += 1
