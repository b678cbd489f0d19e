"""C03: cycle numbers assigned to BioLogic data follow the cycle-advancement rules."""
from vc.harness import harness
from vc.values import and_, or_, not_, implies

BL = "beep.structure.biologic"
M2B = "beep.protocol.maccor_to_biologic_mb"

META = {
    "title": "BioLogic cycle numbers follow the cycle-advancement rules exactly",
    "statement": "Given cycle-advancement rules and the recorded sequence (and technique-loop) numbers of a BioLogic run, every data point gets a cycle number that starts at one plus the advance on technique start and grows, at each data point, by the technique-loop advance when the loop number changed, otherwise by the advance listed for the (previous, current) sequence transition when the sequence number changed, and by nothing in all other cases. When several technique files are processed together, the count carries over from one technique to the next and every other column and the row order are kept. Loading a BioLogic data file with a rules file assigns the same numbers.",
    "over": ["inputs", "histories"],
    "qtext": "every rules file (any number of transitions), every sequence of data points with any sequence/loop numbers, any number of technique files",
    "why": "tests run two recorded data files with one rules file each; loop changes coinciding with sequence changes, absent transitions, back-and-forth transitions and advances greater than one are not sampled",
    "files": ["beep/structure/biologic.py", "beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "get_cycle_index", "where": "beep/structure/biologic.py:214"},
                  {"name": "add_cycle_nums_to_csvs", "where": "beep/protocol/maccor_to_biologic_mb.py:1464"},
                  {"name": "rules parse_json", "where": "beep/structure/biologic.py:345"}],
    "observe": ["beep.structure.biologic.get_cycle_index", "beep.protocol.maccor_to_biologic_mb.add_cycle_nums_to_csvs",
                "BiologicDatapath.from_file(path, mapping_file)"],
    "level": "proof",
    "level_note": "get_cycle_index (both forms) and add_cycle_nums_to_csvs proved for data and rules of any length by loop invariants found by Houdini from the recursive specification; number of technique files in one call: 1 and 2 (bound). BiologicDatapath.from_file: bounded stand-in on generated files",
    "assumptions": ["json.loads(text of x) == x, file content read back as written, pandas row iteration/column store (assumed library contracts)"],
    "bounded": ["from_file: generated files of up to 8 rows", "add_cycle_nums_to_csvs: 1-2 technique files per call"],
}


def rules(H, path, p=""):
    T = H.mapping(p + "T", ("int", "int"), "int", kgen=(0, 3), vgen=(0, 2))
    start = H.int(p + "start", 0, gen=(0, 3))
    tloop = H.int(p + "tloop", 0, gen=(0, 3))
    lst = H.items(T, lambda k, v: {"source": k[0], "target": k[1], "adv_cycle_count": v})
    H.json_file(path, {"tech_num": H.int(p + "tech", 1, 9), "tech_does_loop": True,
                       "adv_cycle_on_start": start, "adv_cycle_on_tech_loop": tloop,
                       "adv_cycle_seq_transitions": lst, "debug_adv_cycle_on_step_transitions": []})
    if H.sym:
        H.ghost_map(p + "rules_prefix", ("int", "int"), lambda key, k: T.sym.in_prefix(key, k), lambda key: T.sym.raw(key))
    return T, start, tloop


def spec_counts(H, T, first, tloop, ns, loops, p=""):
    """the specification: C(0) = first; C(i) = C(i-1) + (loop changed ? tloop : transition count)"""
    def step(i, prev):
        a, b = H.at(ns, i - 1), H.at(ns, i)
        adv = H.ite(H.eq(a, b), 0, H.lookup(T, (a, b), 0))
        if loops is not None:
            adv = H.ite(H.eq(H.at(loops, i - 1), H.at(loops, i)), adv, tloop)
        return prev + adv
    C = H.recfun(p + "C", first, step)
    H.ghost(p + "ns", lambda i: H.at(ns, i))
    if loops is not None:
        H.ghost(p + "loop", lambda i: H.at(loops, i))
    return C


def rows(H, p=""):
    pairs = H.seq(p + "rows", ("int", "int"), gen=(0, 3), minlen=1, concmax=9)
    if H.sym:
        return pairs.map(lambda t: t[0]), pairs.map(lambda t: t[1])
    return [q[0] for q in pairs], [q[1] for q in pairs]


def follows(H, got, C):
    def f(i):
        C.unfold(i)
        return H.eq(H.at(got, i), C(i))
    return f


@harness("C03", "index_without_loop_column", conc=300, targets=[BL])
def h_noloop(H):
    d = H.tmpdir()
    T, start, tloop = rules(H, d + "/rules.json")
    ns = H.seq("ns", "int", gen=(0, 3), minlen=1, concmax=9)
    C = spec_counts(H, T, 1 + start, tloop, ns, None)
    H.cover("inputs")
    r = H.run(H.mod(BL).get_cycle_index, ns, d + "/rules.json")
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("one cycle number per data point", H.eq(H.len(r.value), H.len(ns)))
    H.ensure_all("cycle number follows the rules", H.len(ns), follows(H, r.value, C), (r.value,))


@harness("C03", "index_with_loop_column", conc=400, targets=[BL])
def h_loop(H):
    d = H.tmpdir()
    T, start, tloop = rules(H, d + "/rules.json")
    ns, lp = rows(H)
    C = spec_counts(H, T, 1 + start, tloop, ns, lp)
    H.cover("inputs")
    r = H.run(H.mod(BL).get_cycle_index, ns, d + "/rules.json", loop_list=lp)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    H.ensure("one cycle number per data point", H.eq(H.len(r.value), H.len(ns)))
    H.ensure_all("cycle number follows the rules", H.len(ns), follows(H, r.value, C), (r.value,))


@harness("C03", "technique_csvs", conc=150, targets=[M2B], budget=200)
def h_csvs(H):
    d = H.tmpdir()
    n = H.choice("files", [1, 2])
    specs, ins, rls, outs = [], [], [], []
    first = 1
    for q in range(n):
        p = "f%d" % q
        T, start, tloop = rules(H, d + "/%srules.json" % p, p)
        ns, lp = rows(H, p)
        C = spec_counts(H, T, first + start, tloop, ns, lp, p)
        if H.sym:
            # last value of this technique, as the start of the next
            first = C(H.len(ns) - 1)
            C.unfold(H.len(ns) - 1)
        else:
            first = C(len(ns) - 1)
        extra = ns if H.sym else [10 * i + q for i in range(len(ns))]
        H.csv_file(d + "/%sin.csv" % p, {"Ns": ns, "other": extra, "Loop": lp}, sep=";")
        specs.append((ns, lp, extra, C))
        ins.append(d + "/%sin.csv" % p)
        rls.append(d + "/%srules.json" % p)
        outs.append(d + "/%sout.csv" % p)
    H.cover("inputs")
    r = H.run(H.mod(M2B).add_cycle_nums_to_csvs, ins, rls, outs)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    for (ns, lp, extra, C), o in zip(specs, outs):
        got = H.csv_read(o, sep=";")
        H.ensure("output written", got is not None and "cycle_index" in got and "Ns" in got and "other" in got and "Loop" in got, o)
        if got is None or "cycle_index" not in got:
            return
        H.ensure("one cycle number per data point", H.eq(H.len(got["cycle_index"]), H.len(ns)))
        H.ensure_all("rows kept", H.len(ns), lambda i: and_(H.eq(H.at(got["Ns"], i), H.at(ns, i)), H.eq(H.at(got["Loop"], i), H.at(lp, i)),
                                                           H.eq(H.at(got["other"], i), H.at(extra, i))), o)
        H.ensure_all("cycle number follows the rules", H.len(ns), follows(H, got["cycle_index"], C), (got["cycle_index"],))


@harness("C03", "datapath_from_file", proof=False, conc=60, targets=[BL])
def h_file(H):
    d = H.tmpdir()
    T, start, tloop = rules(H, d + "/rules.json")
    ns, lp = rows(H)
    withloop = H.bool("with_loop")
    C = spec_counts(H, T, 1 + start, tloop, ns, lp if withloop else None)
    cols = ["Ns", "Ecell/V", "I/mA", "Q discharge/mA.h", "Q charge/mA.h", "Energy charge/W.h", "Energy discharge/W.h", "cycle number"]
    if withloop:
        cols.append("Loop")
    cols.append("time/s")
    lines = []
    for i, s in enumerate(ns):
        v = [str(s), "3.%d" % i, "-%d.5" % i, str(i), "2", "0.1", "0.2", "0"] + ([str(lp[i])] if withloop else []) + [
            "06/19/2020 08:%02d:00.5000" % i]
        lines.append(";".join(v))
    # the header's last column carries the line end, as in the exported files
    with open(d + "/x_CA1.csv", "wb") as f:
        f.write((";".join(cols[:-1] + ["time/s", "x"]) + "\r\n").encode())
        f.write("".join(l + ";0\r\n" for l in lines).encode())
    with open(d + "/x_CA1.mpl", "wb") as f:
        f.write(b"BT-LAB LOG FILE\r\nRun on channel : A1 (SN 1)\r\nComments : abc\r\nCycle Definition : x\r\n\r\n")
    r = H.run(H.mod(BL).BiologicDatapath.from_file, d + "/x_CA1.csv", d + "/rules.json")
    H.ensure("file loads", r.ok, r)
    raw = r.value.raw_data
    H.ensure("rows", len(raw) == len(ns))
    H.ensure("cycle number follows the rules", raw["cycle_index"].tolist() == [C(i) for i in range(len(ns))], raw["cycle_index"].tolist())
    H.ensure("sequence numbers kept", raw["step_index"].tolist() == list(ns))
