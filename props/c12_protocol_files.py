"""C12: protocol files survive a write/read round trip."""
import copy
import os
from collections import OrderedDict
from vc.harness import harness
from props.c10_maccor_procedure import leaves

ARB, BIO, MAC = "beep.protocol.arbin", "beep.protocol.biologic", "beep.protocol.maccor"

META = {
    "title": "Protocol files round-trip without loss (Arbin, BioLogic, Maccor)",
    "statement": "Writing an Arbin schedule, a BioLogic settings object or a Maccor procedure to a file and reading the file back gives the same protocol: the same sections, techniques, steps and keys in the same order with the same values as text (Maccor: up to surrounding blanks, which the instrument format needs). This holds for values with '=', brackets, colons or quotes, sections without own entries, several techniques of different length (also the short Loop technique), header lines with or without a value. Reading a BioLogic or Arbin file and writing it again reproduces the file's lines; after changing one value only that cell changes. Writing never changes the object.",
    "over": ["inputs"],
    "qtext": "every Arbin schedule / BioLogic settings object / Maccor procedure, every value text without line breaks",
    "why": "tests read back one or two template files; special characters, several techniques, empty sections, other line separators and encodings are not sampled",
    "files": ["beep/protocol/arbin.py", "beep/protocol/biologic.py", "beep/protocol/maccor.py"],
    "mechanism": [{"name": "Schedule.from_file/to_file", "where": "beep/protocol/arbin.py:41"},
                  {"name": "Settings.mps_text_to_schedule_dict/to_file", "where": "beep/protocol/biologic.py:62"},
                  {"name": "Procedure.to_file/_format_maccor", "where": "beep/protocol/maccor.py:76"}],
    "observe": ["written files", "objects read back"],
    "level": "proof",
    "level_note": "Arbin and BioLogic: proved for all value texts (no line breaks, blanks at the ends or, Arbin, square brackets; those are sampled) on enumerated structures; Maccor XML: bounded stand-in",
    "assumptions": ["the file system returns what was written; encoding is lossless for the texts", "re.split: a text without the characters a pattern names is never split"],
    "bounded": ["maccor_xml, arbin_sampled, biologic_sampled: generated protocols", "templates: all shipped templates", "structures of the proofs: up to 3 sections / 3 techniques with up to 3 steps"],
}


def tree(x):
    return [(k, tree(v)) for k, v in x.items()] if isinstance(x, dict) else x


def same(H, label, a, b):
    """equal with key order"""
    la, lb = list(leaves(a)), list(leaves(b))
    H.ensure(label + ": same keys in the same order", skeleton(a) == skeleton(b), (skeleton(a), skeleton(b)))
    for (p, v), (q, w) in zip(la, lb):
        if p == q:
            H.ensure(label + ": same values", H.eq(v, w), (p, v, w))


def skeleton(x):
    return [(k, skeleton(v)) for k, v in x.items()] if isinstance(x, dict) else None


# ------------------------------------------------------------------ Arbin
def arbin(H, mod, text):
    s = mod.Schedule()
    n = [0]

    def body():
        d = OrderedDict()
        for k in H.choice("keys%d" % n[0], [["m_szA"], ["m_szA", "Equation0_szLeft"], []]):
            d[k] = text("v%d_%s" % (n[0], k)) if H.choice("empty%d%s" % (n[0], k), [False, True]) is False else ""
        n[0] += 1
        return d
    shape = H.choice("shape", ["flat", "nested", "deep"])
    s["Schedule"] = body()
    if shape != "flat":
        s["Schedule"]["Step0"] = body()
    if shape == "deep":
        s["Schedule"]["Step0"]["Limit0"] = body()
    if shape == "nested":
        s["Signature"] = body()
    return s


def arbin_check(H, mod, s, path, linesep, rewrite=True):
    before = copy.deepcopy(s)
    res = H.run(s.to_file, path, linesep=linesep)
    H.ensure("schedule written", res.ok, res)
    if not res.ok:
        return
    same(H, "object unchanged", s, before)
    back = H.run(mod.Schedule.from_file, path)
    H.ensure("schedule read back", back.ok, back)
    if back.ok:
        same(H, "schedule round trip", s, back.value)


@harness("C12", "arbin", conc=60, targets=[ARB])
def h_arbin(H):
    mod = H.mod(ARB)
    s = arbin(H, mod, lambda n: H.word(n, 1000, banned="[]", pool=["a=b", "x == y", "3.6", "\u00b0C"]))
    H.cover("inputs")
    sep = H.choice("linesep", ["\r\n", "\n"])
    if H.sym:
        return arbin_check(H, mod, s, "/vc/x.sdu", sep)
    arbin_check(H, mod, s, H.tmpdir() + "/x.sdu", sep)


@harness("C12", "arbin_sampled", proof=False, conc=300, targets=[ARB])
def h_arbin2(H):
    mod = H.mod(ARB)
    d = H.tmpdir()
    s = mod.Schedule()
    for i in range(H.int("sections", 1, 3)):
        sec = s.setdefault("Sec%d" % i, OrderedDict())
        for j in range(H.int("n%d" % i, 0, 4)):
            sec["m_k%d" % j] = "" if H.choice("e%d%d" % (i, j), [0, 0, 1]) else H.word("v%d%d" % (i, j), 30, pool=["[a]", "x[1]=[2]", "[]", "f(x)=[y]", "a]b[c", "[Schedule]x"])
        for k in range(H.int("subs%d" % i, 0, 2)):
            sub = sec.setdefault("Step%d" % k, OrderedDict())
            for j in range(H.int("m%d%d" % (i, k), 0, 3)):
                sub["Equation%d_szLeft" % j] = H.word("w%d%d%d" % (i, k, j), 30, pool=["[a]", "[[b]]", "c = [d] + e", "]["])
    sep = H.choice("linesep", ["\r\n", "\n", "\r"])
    arbin_check(H, mod, s, d + "/x.sdu", sep)
    t1 = open(d + "/x.sdu", "rb").read()
    mod.Schedule.from_file(d + "/x.sdu").to_file(d + "/y.sdu", linesep=sep)
    H.ensure("rewritten file identical", open(d + "/y.sdu", "rb").read() == t1)


# ------------------------------------------------------------------ BioLogic
KEYS = ["Ns", "ctrl_type", "Apply I/C", "ctrl1_val", "charge/discharge"]


def mps_lines(H, cell, hdr, techs, pad):
    lines = ["BT-LAB SETTING FILE", "", "Number of linked techniques : %d" % techs, "", "Filename : " + hdr("file"),
             "Device : BCS-815", "Safety Limits :", "\tEcell min = 2.00 V", "for DX = 1, DQ = 26.802 mA.h", "Comments : " + hdr("comment"),
             "Record mode : a : b", ""]
    for t in range(1, techs + 1):
        loop = H.choice("loop%d" % t, [False, True])
        keys = ["goto Ne", "nt times"] if loop else (KEYS if pad is None else KEYS + ["key_%d" % i for i in range(pad)])
        steps = 1 if loop else H.choice("steps%d" % t, [1, 2, 3])
        lines += ["Technique : %d" % t, "Loop" if loop else "Modulo Bat"]
        for k in keys:
            ln = k.ljust(20)
            for j in range(steps):
                ln = ln + (cell("c%d_%s_%d" % (t, k, j), k)).ljust(20)
            lines.append(ln)
        lines.append("")
    return lines


def expected(H, lines, mods=None):
    """techniques as written in the lines"""
    techs, cur = OrderedDict(), None
    for i, l in enumerate(lines):
        lit = l if isinstance(l, str) else (l.p[0] if isinstance(l.p[0], str) else "")
        if lit.startswith("Technique : "):
            cur = techs.setdefault(lit[12:], [lines[i + 1], []])
        elif cur is not None and lit != "" and i and not (lines[i - 1] if isinstance(lines[i - 1], str) else "").startswith("Technique : "):
            cur[1].append(l)
    return techs


def join(lines, sep="\r\n"):
    out = lines[0]
    for l in lines[1:]:
        out = out + sep + l
    return out


def cells(H, l):
    if isinstance(l, str):
        return [l[i:i + 20].strip() for i in range(0, len(l), 20)]
    from vc.values import PadText, SymStr
    out = []
    for x in l.p:
        if isinstance(x, str):
            out += [x[i:i + 20].strip() for i in range(0, len(x), 20)]
        else:
            out.append(x.inner.strip() if isinstance(x, PadText) else x)
    return out


def bio_check(H, mod, lines, path, write, read, sep="\r\n"):
    write(path, join(lines, sep))
    res = H.run(mod.Settings.from_file, path)
    H.ensure("settings read", res.ok, res)
    if not res.ok:
        return None
    s = res.value
    techs = expected(H, lines)
    H.ensure("all techniques read", list(s["Technique"].keys()) == list(techs.keys()), list(s["Technique"].keys()))
    for n, (typ, rows) in techs.items():
        if n not in s["Technique"]:
            continue
        got = s["Technique"][n]
        H.ensure("technique type", H.eq(got["Type"], typ))
        cs = [cells(H, r) for r in rows]
        H.ensure("all steps read", list(got["Step"].keys()) == [str(j) for j in range(1, len(cs[0]))], (n, list(got["Step"].keys())))
        for j in range(1, len(cs[0])):
            st = got["Step"].get(str(j), {})
            H.ensure("step keys", list(st.keys()) == [c[0] for c in cs], (n, j, list(st.keys())))
            for c in cs:
                if c[0] in st:
                    H.ensure("step value in its place", H.eq(st[c[0]], c[j]), (n, j, c[0], st[c[0]], c[j]))
    before = copy.deepcopy(s)
    w = H.run(s.to_file, path + "2", linesep=sep)
    H.ensure("settings written", w.ok, w)
    same(H, "object unchanged", s, before)
    if w.ok:
        out = read(path + "2")
        H.ensure("written file equals the file read", H.eq(out, join(lines, sep)), (out, join(lines, sep)))
        back = H.run(mod.Settings.from_file, path + "2")
        H.ensure("settings read back", back.ok, back)
        if back.ok:
            same(H, "settings round trip", s, back.value)
    return s


@harness("C12", "biologic", conc=40, targets=[BIO])
def h_bio(H):
    mod = H.mod(BIO)
    n = H.choice("techniques", [1, 2])
    cell = lambda name, k: H.word(name, 20, pool=["0.100", "<None>", "Next sequence", "a : b"])
    hdr = lambda name: H.word(name, 1000, banned=":", pool=["C:/x", "none"])
    lines = mps_lines(H, cell, hdr, n, None)
    H.cover("inputs")
    if H.sym:
        bio_check(H, mod, lines, "/vc/x.mps", H.vwrite, H.vread)
    else:
        d = H.tmpdir()
        bio_check(H, mod, lines, d + "/x.mps", wr, rd)


def wr(path, text):
    with open(path, "wb") as f:
        f.write(text.encode("ISO-8859-1"))


def rd(path):
    return open(path, "rb").read().decode("ISO-8859-1")


@harness("C12", "biologic_sampled", proof=False, conc=200, targets=[BIO])
def h_bio2(H):
    mod = H.mod(BIO)
    d = H.tmpdir()
    n = H.int("techniques", 1, 4)
    cell = lambda name, k: "" if H.choice("e" + name, [0, 0, 1]) and k != "Ns" and not k.startswith("nt") and not k.startswith("goto") else \
        H.word(name, 20, pool=["0.100", "Technique", "a : b", "Technique : 3", "Metadata", "[x]"])
    hdr = lambda name: H.word(name, 60, pool=["Technique", "Metadata", "C:\\data : x", "Technique : 2", "Modulo Bat", "a:b"])
    lines = mps_lines(H, cell, hdr, n, H.choice("pad", [0, 20, 57]))
    if H.choice("noeol", [0, 1]):
        lines = lines[:-1]
    s = bio_check(H, mod, lines, d + "/x.mps", wr, rd, H.choice("sep", ["\r\n", "\n"]))
    if s is None:
        return
    techs = s["Technique"]
    t = H.choice("tech", sorted(techs))
    st = H.choice("st", sorted(techs[t]["Step"]))
    k = H.choice("k", sorted(techs[t]["Step"][st]))
    s.set("Technique.%s.Step.%s.%s" % (t, st, k), "NEW") if "." not in k and "/" not in k else techs[t]["Step"][st].__setitem__(k, "NEW")
    s.to_file(d + "/z.mps")
    a, b = rd(d + "/x.mps").replace("\r\n", "\n").split("\n"), rd(d + "/z.mps").split("\r\n")
    diff = [(x, y) for x, y in zip(a, b) if x.ljust(400) != y.ljust(400)]
    H.ensure("changing one value changes one line", len(a) == len(b) and len(diff) <= 1, diff)
    for x, y in diff:
        c = int(st)
        H.ensure("changing one value changes one cell", y[:20 * c] == x[:20 * c] and y[20 * c:20 * c + 20].strip() == "NEW"
                 and y[20 * c + 20:] == x[20 * c + 20:], (x, y))


# ------------------------------------------------------------------ templates as shipped
@harness("C12", "templates", proof=False, conc=1, targets=[ARB, BIO, MAC])
def h_templates(H):
    pr = H.mod("beep.protocol")
    d = H.tmpdir()
    A, B, M = H.mod(ARB).Schedule, H.mod(BIO).Settings, H.mod(MAC).Procedure
    for folder, cls, ext in ((pr.SCHEDULE_TEMPLATE_DIR, A, ".sdu"), (pr.BIOLOGIC_TEMPLATE_DIR, B, ".mps"), (pr.PROCEDURE_TEMPLATE_DIR, M, ".000")):
        for f in sorted(os.listdir(folder)):
            if not f.endswith(ext):
                continue
            p = os.path.join(folder, f)
            x = H.run(cls.from_file, p)
            H.ensure("template read", x.ok, (f, x))
            w = H.run(x.value.to_file, d + "/o" + ext)
            H.ensure("template written", w.ok, (f, w))
            same(H, "template round trip", x.value, cls.from_file(d + "/o" + ext))
            if ext != ".000":
                lines = lambda q: [l.rstrip() for l in rd(q).replace("\r\n", "\n").split("\n")]
                H.ensure("template file reproduced", lines(p) == lines(d + "/o" + ext), f)


# ------------------------------------------------------------------ Maccor
@harness("C12", "maccor_xml", proof=False, conc=200, targets=[MAC])
def h_maccor(H):
    mod = H.mod(MAC)
    d = H.tmpdir()
    enc = H.choice("encoding", ["UTF-8", "UTF-8", "ISO-8859-1"])
    w = lambda n: H.word(n, 12, pool=["a & b", "<x>", "4.2", '"q"', "\u00b5A", "</Ends>", "x  y"])
    steps = []
    for i in range(H.int("steps", 2, 6)):
        nend, nrep = H.int("ends%d" % i, 0, 3), H.int("reps%d" % i, 0, 2)
        one = lambda xs: xs[0] if len(xs) == 1 else xs
        ends = [OrderedDict([("EndType", H.choice("et%d%d" % (i, j), ["StepTime", "Voltage", "Current", "Loop Cnt", "T"])), ("SpecialType", None),
                             ("Oper", H.choice("op%d%d" % (i, j), ["=", ">=", "<=", None])), ("Step", "%03d" % H.int("go%d%d" % (i, j), 1, 99)),
                             ("Value", w("v%d%d" % (i, j)))]) for j in range(nend)]
        reps = [OrderedDict([("ReportType", H.choice("rt%d%d" % (i, j), ["StepTime", "Voltage", "V"])), ("Value", w("r%d%d" % (i, j)))]) for j in range(nrep)]
        steps.append(OrderedDict([("StepType", H.choice("ty%d" % i, ["Rest", "Charge", "Dischrge", "Do 1", "AdvCycle", "X"])),
                                  ("StepMode", H.choice("mo%d" % i, [None, "Current", "Voltage", "C"])), ("StepValue", H.choice("sv%d" % i, [None, 1.5, "2.0"])),
                                  ("Limits", H.choice("li%d" % i, [None, OrderedDict([("Voltage", "4.2")])])),
                                  ("Ends", OrderedDict([("EndEntry", one(ends))]) if ends else None),
                                  ("Reports", OrderedDict([("ReportEntry", one(reps))]) if reps else None),
                                  ("Range", "A"), ("StepNote", H.choice("note%d" % i, [None, w("n%d" % i)]))]))
    p = mod.Procedure(OrderedDict([("MaccorTestProcedure", OrderedDict([("header", OrderedDict([("BuildTestVersion", "1"), ("ProcDesc", None)])),
                                                                      ("ProcSteps", OrderedDict([("TestStep", steps)]))]))]))
    before = copy.deepcopy(p)
    r = H.run(p.to_file, d + "/p.000", encoding=enc)
    H.ensure("procedure written", r.ok, r)
    if not r.ok:
        return
    same(H, "object unchanged", p, before)
    head = open(d + "/p.000", "rb").read().split(b"\n")[:2]
    H.ensure("xml and maccor header lines", head[0].startswith(b"<?xml") and head[1] == b'<?maccor-application progid="Maccor Procedure File"?>', head)
    b = H.run(mod.Procedure.from_file, d + "/p.000", encoding=enc)
    H.ensure("procedure read back", b.ok, b)
    if b.ok:
        norm = lambda x: None if x is None or str(x).strip() == "" else str(x).strip()
        la, lb = list(leaves(p)), list(leaves(b.value))
        H.ensure("procedure round trip: same keys in the same order", [q for q, _ in la] == [q for q, _ in lb], (la, lb))
        for (q, v), (_, x) in zip(la, lb):
            H.ensure("procedure round trip: same values", norm(v) == norm(x), (q, v, x))
