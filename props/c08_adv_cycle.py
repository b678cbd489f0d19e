"""C08: cycle numbers of BioLogic data equal the cycle numbers the Maccor procedure would have given."""
import json
import os
from collections import OrderedDict
from vc.harness import harness
from vc.values import and_
from . import maccor_gen as g
from .c06_maccor_step import CONV
from .c07_maccor_flow import structures, layout, plan, build, random_toks

M2B = "beep.protocol.maccor_to_biologic_mb"

META = {
    "title": "Cycle advancement rules reproduce the Maccor procedure's cycle numbers",
    "statement": "For a Maccor procedure without jumps, converting it to BioLogic and applying the cycle advancement rules written with it to the data of a run (sequence and technique-loop number of every data point) gives every data point the cycle number the Maccor procedure gives it: 1 plus the number of AdvCycle steps executed before that step, whatever the order of AdvCycle steps, loops, nested loops, split steps and technique boundaries, and however many times the loops run. Where this is impossible (a loop whose body advances the cycle but consists of a single sequence, so the data cannot show its repetitions) the conversion is rejected with an error.",
    "over": ["inputs", "histories"],
    "qtext": "every procedure with at most doubly nested loops and AdvCycle steps anywhere, every loop count",
    "why": "tests check hand-computed rules of two procedures; advances at the start of loop bodies and across technique loops were miscounted",
    "files": ["beep/protocol/maccor_to_biologic_mb.py", "beep/structure/biologic.py"],
    "mechanism": [{"name": "_create_cycle_advancement_rules", "where": "beep/protocol/maccor_to_biologic_mb.py:1054"},
                  {"name": "add_cycle_nums_to_csvs", "where": "beep/protocol/maccor_to_biologic_mb.py:1330"}],
    "observe": ["rules json files of MaccorToBiologicMb.convert; cycle_index of add_cycle_nums_to_csvs"],
    "level": "proof",
    "level_note": "the rules are proved, for every loop count, to give the Maccor advance for every transition a run can contain, on every well-formed structure of up to 6 steps (bounded in structure); that applying the rules sums these advances for every data record is C03's theorem; longer procedures end to end are a bounded stand-in",
    "assumptions": ["C03 (rules are applied as written), proved there", "every visited sequence leaves at least one data point"],
    "bounded": ["transitions: structures of up to 6 steps, all loop counts", "end_to_end: generated procedures of up to 16 steps, loop counts up to 4"],
}


def ambiguous(toks):
    """an innermost loop with a single (unsplit) measurement step and an AdvCycle"""
    for i, t in enumerate(toks):
        if t[0] == "D":
            j = i
            while toks[j] != "E" + t[1]:
                j += 1
            body = toks[i + 1:j]
            if not any(x[0] == "D" for x in body) and body.count("R") == 1 and "S" not in body and "A" in body:
                return True
    return False


def events(toks, times):
    """[(technique, technique loop, sequence, cycle)] of a run; times: loop-end step number -> executions of its body"""
    techs = layout(toks)
    plans = [plan(toks, t) for t in techs]
    out, cycle = [], 1

    def run_range(k, first, last, tl):
        nonlocal cycle
        t = techs[k]
        s = first
        while s <= last:
            tok = toks[s - 1]
            if tok == "A":
                cycle += 1
            elif tok in ("R", "S"):
                n0 = plans[k][1][s]
                for n in range(n0, n0 + (2 if tok == "S" else 1)):
                    out.append((k, tl, n, cycle))
            elif tok[0] == "D":
                e = s
                while toks[e - 1] != "E" + tok[1]:
                    e += 1
                for _ in range(max(1, times[e])):
                    run_range(k, s + 1, e - 1, tl)
                s = e
            s += 1
    for k, t in enumerate(techs):
        for tl in range(max(1, times[t["loop"]]) if t["loop"] else 1):
            run_range(k, t["first"], t["last"], tl)
    return techs, out


STRUCT = [t for n in range(1, 7) for t in structures(n)]


@harness("C08", "transitions", conc=60, contracts=list(CONV.values()), targets=[M2B], budget=400)
def h_rules(H):
    mod = H.mod(M2B)
    conv = mod.MaccorToBiologicMb()
    toks = H.choice("structure", STRUCT)
    counts = {i + 1: H.inttext("n%d" % i, -1, 1000) for i, t in enumerate(toks) if t[0] == "E"}
    steps = build(H, toks, counts, {})
    H.cover("inputs")

    def go():
        post = []
        for tp in conv._partition_steps_into_techniques(steps[:-1]):
            seqs, a, b = conv._convert_steps_to_seqs(steps=tp.steps, step_num_offset=tp.step_num_offset, end_step_num=len(steps))
            post.append(mod.TechniquePartitionPostConversion(
                technique_num=tp.technique_num, steps=tp.steps, step_num_offset=tp.step_num_offset, tech_does_loop=tp.tech_does_loop,
                num_loops=tp.num_loops, seqs=seqs, step_nums_by_seq_num=a, seq_nums_by_step_num=b))
        return conv._create_cycle_advancement_rules(post)
    r = H.run(go)
    if ambiguous(toks):
        H.ensure("ambiguous loops are rejected", not r.ok, toks)
        return
    H.ensure("converted", r.ok, (toks, r))
    if not r.ok:
        return
    # every transition kind shows when every loop body runs three times
    techs, ev = events(toks, {s: 3 for s in counts})
    H.ensure("one rule set per technique", len(r.value) == len(techs), toks)
    if len(r.value) != len(techs):
        return
    for t, ru in zip(techs, r.value):
        H.ensure("technique number", ru.tech_num == t["num"], toks)
        H.ensure("technique loop flag", ru.tech_does_loop == (t["loop"] is not None), toks)
    prev, last = (-1, 0, 0, 1), None
    seen = set()
    for e in ev:
        k, tl, n, cyc = e
        want = cyc - prev[3]
        ru = r.value[k]
        if prev[0] != k:
            key, got = ("start", k), ru.adv_cycle_on_start
        elif prev[1] != tl:
            key, got = ("loop", k), ru.adv_cycle_on_tech_loop
        elif prev[2] != n:
            key, got = (k, prev[2], n), ru.adv_cycle_seq_transitions.get((prev[2], n), 0)
        else:
            key, got = (k, n), 0          # invisible in the data
        if (key, want) not in seen:
            seen.add((key, want))
            H.ensure("transition advances the cycle as the Maccor procedure does", H.eq(got, want), (toks, key, want, got))
        prev = e


@harness("C08", "end_to_end", proof=False, conc=400, targets=[M2B])
def h_e2e(H):
    import pandas as pd
    import xmltodict
    d = H.tmpdir()
    mod = H.mod(M2B)
    toks = random_toks(H, 16)
    times = {i + 1: H.int("n%d" % i, 1, 4) for i, t in enumerate(toks) if t[0] == "E"}
    steps = build(H, toks, {k: str(v) for k, v in times.items()}, {})
    with open(d + "/p.000", "w") as f:
        f.write(xmltodict.unparse({"MaccorTestProcedure": OrderedDict(ProcSteps=OrderedDict(TestStep=steps))}, pretty=True))
    r = H.run(mod.MaccorToBiologicMb().convert, d + "/p.000", d, "out")
    if ambiguous(toks):
        H.ensure("ambiguous loops are rejected", not r.ok, toks)
        return
    H.ensure("converted", r.ok, (toks, r))
    techs, ev = events(toks, times)
    fps = r.value[1]
    H.ensure("one rules file per technique", len(fps) == len(techs) and all(os.path.exists(p) for p in fps), fps)
    used = [k for k in range(len(techs)) if any(e[0] == k for e in ev)]
    ins, rls, outs, want = [], [], [], []
    for k in range(len(techs)):
        rows = [e for e in ev if e[0] == k]
        reps = [H.int("rep%d" % i, 1, 2) for i in range(len(rows))]
        rows = [e for e, q in zip(rows, reps) for _ in range(q)]
        if not rows:
            # a technique without measurements leaves no data; its advances cannot be seen (outside the claim)
            return
        ins.append(d + "/i%d.csv" % k)
        outs.append(d + "/o%d.csv" % k)
        pd.DataFrame({"Ns": [e[2] for e in rows], "Loop": [e[1] for e in rows]}).to_csv(ins[-1], sep=";", index=False)
        want.append([e[3] for e in rows])
    r2 = H.run(mod.add_cycle_nums_to_csvs, ins, fps, outs)
    H.ensure("cycle numbers computed", r2.ok, r2)
    for o, w in zip(outs, want):
        got = pd.read_csv(o, sep=";")["cycle_index"].tolist()
        H.ensure("cycle numbers as in the Maccor procedure", got == w, (toks, times, got, w))
