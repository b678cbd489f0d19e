"""C25: two Maccor files of one run are joined without losing, reordering or renumbering backwards."""
import os
from vc.harness import harness
from vc.values import and_, or_, not_, implies

SP = "beep.utils.splice"
COUNTERS = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]
OTHER = ["Amps", "Volts", "Step"]

META = {
    "title": "Joining two Maccor files keeps every record and the counters running",
    "statement": "Joining two Maccor files of one run writes a file with the metadata line of the first file and all records of the first file, unchanged, followed by all records of the second, in order, with the same columns. Record, cycle and loop counters and test time of the second part are raised by one constant per column, the last value of the first part, exactly when the second part starts below that value, so no counter falls at the join, and differences within each part are kept; all other columns of the second part are unchanged. The input files are unchanged.",
    "over": ["inputs"],
    "qtext": "two parts with any number of records and any counter values",
    "why": "the test joins one pair of files whose counters all restart",
    "files": ["beep/utils/splice.py"],
    "mechanism": [{"name": "column_increment", "where": "beep/utils/splice.py:76"}, {"name": "run_splice", "where": "beep/utils/splice.py:118"}],
    "observe": ["frames returned by MaccorSplice.column_increment and splice_operation; file written by run_splice"],
    "level": "proof",
    "level_note": "counters and concatenation proved for parts of any length; the whole run on files: bounded stand-in",
    "assumptions": ["counters and times are numbers and not negative", "pandas element-wise arithmetic and concat as documented", "floating-point numbers are real numbers"],
    "bounded": ["files: pairs of generated files of up to 6 records"],
}


def part(H, p):
    shape = tuple("int" if c != "Test (Sec)" else "real" for c in COUNTERS) + ("real", "real", "int")
    rows = H.seq(p, shape, lo=0, gen=(0, 6), minlen=1, concmax=6)
    names = COUNTERS + OTHER
    cols = {}
    for i, c in enumerate(names):
        cols[c] = rows.map(lambda t, i=i: t[i]) if H.sym else [r[i] for r in rows]
    return cols




def col(H, f, c):
    return f[c] if H.sym else list(f[c])


@harness("C25", "counters", conc=300, targets=[SP])
def h_counters(H):
    c1, c2 = part(H, "first"), part(H, "second")
    n1, n2 = H.len(c1["Rec#"]), H.len(c2["Rec#"])
    f1, f2 = H.frame(c1), H.frame(c2)
    s = H.mod(SP).MaccorSplice("a", "b", "c")
    r = H.run(s.column_increment, f1, f2)
    H.ensure("returns", r.ok, r)
    if not r.ok:
        return
    d1, d2 = r.value
    H.ensure("same columns", list(d1.columns) == COUNTERS + OTHER and list(d2.columns) == COUNTERS + OTHER, r)
    for c in COUNTERS + OTHER:
        a, b = col(H, d1, c), col(H, d2, c)
        H.ensure("same number of records", and_(H.eq(H.len(a), n1), H.eq(H.len(b), n2)), c)
        H.ensure_all("first part unchanged", n1, lambda i: H.eq(H.at(a, i), H.at(c1[c], i)), c)
        if c in OTHER:
            H.ensure_all("other columns of the second part unchanged", n2, lambda i: H.eq(H.at(b, i), H.at(c2[c], i)), c)
            continue
        last, start = H.at(c1[c], n1 - 1), H.at(c2[c], 0)
        shift = H.at(b, 0) - start
        H.ensure("raised by the last value, or not at all", or_(H.close(shift, 0, 1e-9), H.close(shift, last, 1e-9)), (c, last, start, shift))
        H.ensure("raised when it starts below", implies(start < last, H.close(shift, last, 1e-9)), (c, last, start, shift))
        H.ensure("not raised when it goes on", implies(start > last, H.close(shift, 0, 1e-9)), (c, last, start, shift))
        H.ensure_all("one constant for the column", n2, lambda i: H.close(H.at(b, i) - H.at(c2[c], i), shift, 1e-9), c)
        H.ensure("does not fall at the join", H.at(b, 0) >= last - 1e-9, (c, last, start, shift))


@harness("C25", "records", conc=200, targets=[SP])
def h_records(H):
    c1, c2 = part(H, "first"), part(H, "second")
    n1, n2 = H.len(c1["Rec#"]), H.len(c2["Rec#"])
    s = H.mod(SP).MaccorSplice("a", "b", "c")
    r = H.run(s.splice_operation, H.frame(c1), H.frame(c2))
    H.ensure("returns", r.ok, r)
    if not r.ok:
        return
    H.ensure("same columns", list(r.value.columns) == COUNTERS + OTHER, r)
    for c in COUNTERS + OTHER:
        a = col(H, r.value, c)
        H.ensure("all records", H.eq(H.len(a), n1 + n2), c)
        H.ensure_all("first part first", n1, lambda i: H.eq(H.at(a, i), H.at(c1[c], i)), c)
        H.ensure_all("then the second part", n2, lambda i: H.eq(H.at(a, n1 + i), H.at(c2[c], i)), c)


@harness("C25", "files", proof=False, conc=300, targets=[SP])
def h_files(H):
    R = H.rng
    d = H.tmpdir()
    names = ["Rec#", "Cyc#", "Step", "Test (Sec)", "Amps", "Volts", "State", "ES", "DPt Time", "Loop1", "Loop2", "Loop3", "Loop4"]
    eol = R.choice(["\n", "\r\n"])

    def write(path, meta, fresh, first):
        n = R.randint(1, 6)
        recs = []
        t, rec, cyc = (0.0, 1, 0) if fresh else first
        for i in range(n):
            recs.append([rec + i, cyc + R.randint(0, 1) * (i == n - 1), R.randint(1, 9), round(t + i * R.uniform(0.5, 9), 4), round(R.uniform(0, 9), 7), round(R.uniform(2, 4), 8), R.choice("CDRS"), R.choice([1, 129]),
                         "09/11/2019 %02d:11:09 PM" % i] + [R.randint(0, 3) for _ in range(4)])
        with open(path, "w", newline="") as f:
            f.write(meta + eol + "\t".join(names) + eol + "".join("\t".join(repr(x) if isinstance(x, float) else str(x) for x in r) + eol for r in recs))
        return recs
    m1, m2 = "Today's Date\t11/06/2019\tDate of Test:\t09/11/2019\t Filename:\tone", "Today's Date\t12/06/2019\tDate of Test:\t10/11/2019\t Filename:\ttwo"
    p1, p2, out = os.path.join(d, "one.071"), os.path.join(d, "two.071"), os.path.join(d, "out.071")
    a = write(p1, m1, True, None)
    b = write(p2, m2, R.random() < .7, (a[-1][3] + 1.5, a[-1][0] + 1, a[-1][1]))
    before = [open(p, "rb").read() for p in (p1, p2)]
    r = H.run(lambda: H.mod(SP).MaccorSplice(p1, p2, out).run_splice())
    H.ensure("joined", r.ok, r)
    if not r.ok:
        return
    H.ensure("input files unchanged", [open(p, "rb").read() for p in (p1, p2)] == before)
    lines = [x for x in open(out).read().split("\n") if x != ""]
    H.ensure("metadata line of the first file", lines[0] == m1, lines[0])
    H.ensure("same columns", lines[1].split("\t") == names, lines[1])
    got = [x.split("\t") for x in lines[2:]]
    H.ensure("all records of both files, in order", len(got) == len(a) + len(b), (len(got), len(a), len(b)))
    if len(got) != len(a) + len(b):
        return
    want = [list(x) for x in a]
    for x in b:
        y = list(x)
        for k, c in enumerate(names):
            if c in COUNTERS and b[0][k] < a[-1][k]:
                y[k] += a[-1][k]
        want.append(y)
    for g, w in zip(got, want):
        for x, y, c in zip(g, w, names):
            H.ensure("value of " + ("a counter" if c in COUNTERS else "a record"), x == y if isinstance(y, str) else abs(float(x) - y) <= 1e-9 * max(1, abs(y)), (c, x, y))
