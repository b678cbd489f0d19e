"""C06: a Maccor step and the BioLogic sequences made from it do the same thing."""
from fractions import Fraction as F
from vc.harness import harness, Contract
from vc.values import and_, or_, not_, implies
from . import maccor_gen as g

M2B = "beep.protocol.maccor_to_biologic_mb"
CONV = {k: M2B + ":MaccorToBiologicMb._convert_" + k for k in ("volts", "amps", "time")}

META = {
    "title": "A Maccor step and its BioLogic sequence control and end the same way",
    "statement": "Converting a Maccor rest, charge or discharge step gives BioLogic sequences with the same control mode (rest, constant current, constant voltage), direction and set value; one limit per Maccor end condition, in order, with the same quantity, comparison direction and threshold; one record condition per Maccor report with the same quantity and value. A step with a voltage (or current) limit becomes a first sequence that runs until the limit is reached and then continues into a second sequence that holds the limit value and carries all end conditions. All other fields keep the template's value. Steps that BioLogic cannot express (more than three limits or records, unsupported modes, end types or operators) are rejected with an error, never converted.",
    "over": ["inputs"],
    "qtext": "every step type, mode, limit, list of 0-4 end conditions and 0-4 reports, with every numeric value",
    "why": "tests convert one rest and one discharge step; direction, comparison, order of limits, split steps and rejections are combinatorial",
    "files": ["beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "_convert_step_parts", "where": "beep/protocol/maccor_to_biologic_mb.py:222"},
                  {"name": "_split_step", "where": "beep/protocol/maccor_to_biologic_mb.py:876"},
                  {"name": "_convert_steps_to_seqs", "where": "beep/protocol/maccor_to_biologic_mb.py:948"}],
    "observe": ["sequences produced for a step; .mps file written by MaccorToBiologicMb.convert"],
    "level": "proof",
    "level_note": "proved for all values, every combination of step kind and 0-4 end conditions / 0-4 reports (the code accepts at most 3), modularly against the contracts of the unit conversions (C05); the .mps text is a bounded stand-in (generated protocols parsed back)",
    "assumptions": ["unit conversions satisfy C05's contracts (proved there)", "pydash.get/set_, copy.deepcopy navigate dicts as documented"],
    "bounded": ["mps_file: generated protocols of up to 6 steps"],
}


# call-site contract of the unit conversions: a function of the text (its meaning is C05's business)
def mkc(k):
    memo = {}

    def fresh(H, self, text):
        path = (id(H.e), H.e.paths)
        if memo.get("path") != path:
            memo.clear()
            memo["path"] = path
        key = repr(text)
        if key not in memo:
            memo[key] = (H.opaque(k + "_value"), H.opaque(k + "_unit"), text)
        return memo[key][:2]
    Contract(CONV[k], fresh, lambda H, r, self, text: [])


for _k in CONV:
    mkc(_k)

FN = {"StepTime": "_convert_time", "Voltage": "_convert_volts", "Current": "_convert_amps"}
QTY = {"StepTime": "Time", "Voltage": "Ecell", "Current": "|I|"}
RQTY = {"StepTime": "Time", "Voltage": "Ecell", "Current": "I"}
COMP = {"=": ">", ">=": ">", "<=": "<"}


def same_quantity(H, conv, kind, text, value, unit):
    if H.sym:
        v, u = H.run(getattr(conv, FN[kind]), text).value
        return and_(H.eq(v, value), H.eq(u, unit))
    if unit not in g.SI or not isinstance(value, str):
        return False
    want = g.seconds(H, text) if kind == "StepTime" else H.num(text)
    return H.close(H.num(value) * g.SI[unit], want, F(1, 2000) if kind == "StepTime" else F(1, 10 ** 6))


def check_seq(H, conv, seq, tag, ctrl, ends, reports, ns, blank):
    """ctrl = (ctrl_type, direction, kind, text) ; ends = [(kind, oper, text)]"""
    seen = {"Ns", "ctrl_type", "Apply I/C", "N", "charge/discharge", "lim_nb", "rec_nb", "lim1_seq", "lim2_seq", "lim3_seq"}
    ctype, direction, kind, text = ctrl
    H.ensure(tag + " sequence number", seq["Ns"] == ns)
    H.ensure(tag + " control mode", seq["ctrl_type"] == ctype, seq)
    H.ensure(tag + " current not C-rate", seq["Apply I/C"] == "I", seq)
    if kind is not None:
        seen |= {"ctrl1_val", "ctrl1_val_unit", "ctrl1_val_vs"}
        H.ensure(tag + " set value", same_quantity(H, conv, kind, text, seq["ctrl1_val"], seq["ctrl1_val_unit"]), (text, seq))
        H.ensure(tag + " reference", seq["ctrl1_val_vs"] == ("<None>" if kind == "Current" else "Ref"), seq)
        H.ensure(tag + " direction", seq["charge/discharge"] == direction, seq)
    H.ensure(tag + " number of limits", seq["lim_nb"] == len(ends), seq)
    for i, (k, op, t) in enumerate(ends):
        p = "lim%d_" % (i + 1)
        seen |= {p + x for x in ("type", "comp", "value", "value_unit")}
        H.ensure(tag + " limit quantity", seq[p + "type"] == QTY[k], seq)
        H.ensure(tag + " limit comparison", seq[p + "comp"] == COMP[op], seq)
        H.ensure(tag + " limit threshold", same_quantity(H, conv, k, t, seq[p + "value"], seq[p + "value_unit"]), (t, seq))
        H.ensure(tag + " limit continues with the next sequence", seq[p + "seq"] == ns + 1, seq)
    H.ensure(tag + " number of records", seq["rec_nb"] == len(reports), seq)
    for i, (k, t) in enumerate(reports):
        p = "rec%d_" % (i + 1)
        seen |= {p + x for x in ("type", "value", "value_unit")}
        H.ensure(tag + " record quantity", seq[p + "type"] == RQTY[k], seq)
        H.ensure(tag + " record value", same_quantity(H, conv, k, t, seq[p + "value"], seq[p + "value_unit"]), (t, seq))
    H.ensure(tag + " same fields", set(seq.keys()) == set(blank.keys()), seq)
    for f in blank:
        if f not in seen:
            H.ensure(tag + " other fields as in the template", H.eq(seq[f], blank[f]), (f, seq))


def expected(stype, mode, value, limit, ends, reports, conv):
    """[(ctrl, ends, reports)]"""
    direction = "Charge" if stype == "Charge" else "Discharge"
    ct = {"Current": "CC", "Voltage": "CV"}
    if stype == "Rest":
        return [(("Rest", None, None, None), ends, reports)]
    main = (ct[mode], direction, mode, value)
    if limit is None:
        return [(main, ends, reports)]
    other = "Voltage" if mode == "Current" else "Current"
    return [(main, [(other, ">=" if stype == "Charge" else "<=", limit)], reports),
            ((ct[other], direction, other, limit), ends, reports)]


def draw(H, nmax_ends, nmax_rep):
    stype = H.choice("type", ["Rest", "Charge", "Dischrge"])
    mode = value = limit = None
    if stype != "Rest":
        mode = H.choice("mode", ["Current", "Voltage"])
        value = g.value_text(H, "set", mode)
        if H.choice("limited", [False, True]):
            limit = g.value_text(H, "limit", "Voltage" if mode == "Current" else "Current")
    ends = []
    for i in range(H.choice("n_ends", list(range(nmax_ends + 1)))):
        k, op = H.choice("end%d" % i, g.KINDS) if i < 3 else g.KINDS[i % 5]
        ends.append((k, op, g.value_text(H, "e%d" % i, k)))
    reports = []
    for i in range(H.choice("n_rep", list(range(nmax_rep + 1)))):
        k = H.choice("rep%d" % i, ["StepTime", "Voltage", "Current"]) if i < 3 else "Voltage"
        reports.append((k, g.value_text(H, "r%d" % i, k)))
    return stype, mode, value, limit, ends, reports


def body(H, ne, nr, offs):
    cls = H.mod(M2B).MaccorToBiologicMb
    conv = cls()
    off = H.choice("offset", offs)
    stype, mode, value, limit, ends, reports = draw(H, ne, nr)
    nxt = str(off + 2).zfill(3)
    st = g.step(stype, mode, value, None if limit is None else {"Voltage" if mode == "Current" else "Current": limit},
                [g.end_entry(k, op, t, nxt) for k, op, t in ends], [g.report_entry(k, t) for k, t in reports])
    H.cover("inputs")
    r = H.run(conv._convert_steps_to_seqs, [st], off, 99)
    if len(ends) > 3 or len(reports) > 3:
        H.ensure("more than three limits or records are rejected", not r.ok, r)
        return
    H.ensure("converted", r.ok, r)
    if not r.ok:
        return
    seqs = r.value[0]
    exp = expected(stype, mode, value, limit, ends, reports, conv)
    H.ensure("number of sequences", len(seqs) == len(exp), seqs)
    if len(seqs) != len(exp):
        return
    for i, (ctrl, en, rp) in enumerate(exp):
        tag = "sequence" if len(exp) == 1 else ("hold" if i else "ramp")
        check_seq(H, conv, seqs[i], tag, ctrl, en, rp, i, conv._blank_seq)


@harness("C06", "end_conditions", conc=400, contracts=list(CONV.values()), targets=[M2B], budget=300)
def h_ends(H):
    body(H, 4, 0 if H.sym else 1, [7] if H.sym else [0, 7])


@harness("C06", "reports", conc=300, contracts=list(CONV.values()), targets=[M2B], budget=300)
def h_reports(H):
    body(H, 0 if H.sym else 1, 4, [0, 7] if not H.sym else [0])


@harness("C06", "rejections", conc=200, contracts=list(CONV.values()), targets=[M2B])
def h_rej(H):
    conv = H.mod(M2B).MaccorToBiologicMb()
    what = H.choice("what", ["type", "mode", "mode_limit", "limit", "endtype", "oper", "volt_oper", "cur_oper", "report", "two_limits"])
    stype, mode, ends, reports, limits = "Charge", "Current", [("StepTime", "=")], ["Voltage"], None
    val = g.value_text(H, "v", "Current")
    if what == "type":
        stype = H.choice("t", ["Discharge", "Pause", "FastWave", "charge", "ExtCtrl"])
    elif what == "mode":
        mode = H.choice("m", ["Power", "Resistance", "C-Rate", None])
    elif what == "mode_limit":
        mode = H.choice("m", ["Power", "Resistance", None])
        limits = {"Voltage": val}
    elif what == "limit":
        limits = {H.choice("l", ["Current", "Power", "Resistance"]): val}
    elif what == "two_limits":
        limits = {"Voltage": [val, val]}
    elif what == "endtype":
        ends = [(H.choice("e", ["Power", "-dV/dt", "Loop Cnt", "StepTime "]), "=")]
    elif what == "oper":
        ends = [("StepTime", H.choice("o", [">=", "<=", "<"]))]
    elif what == "volt_oper":
        ends = [("Voltage", H.choice("o", ["=", ">", "<", "=="]))]
    elif what == "cur_oper":
        ends = [("Current", H.choice("o", ["=", ">", "<", "=="]))]
    elif what == "report":
        reports = [H.choice("r", ["Power", "Energy", "Time"])]
    st = g.step(stype, mode, val, limits, [g.end_entry(k, o, g.value_text(H, "e", k.strip()), "002") for k, o in ends],
                [g.report_entry(k, val) for k in reports])
    H.cover("inputs")
    r = H.run(conv._convert_steps_to_seqs, [st], 0, 99)
    H.ensure("what BioLogic cannot express is rejected", not r.ok, (what, r))


def parse_mps(text):
    """[(technique number, kind, {field: [values]})]"""
    out = []
    blocks = text.split("\r\nTechnique : ")
    for b in blocks[1:]:
        lines = b.split("\r\n")
        num, kind, fields = int(lines[0]), lines[1].strip(), {}
        for l in lines[2:]:
            if l.strip():
                fields[l[:20].strip()] = [l[i:i + 20].strip() for i in range(20, len(l), 20)]
        out.append((num, kind, fields))
    return blocks[0], out


@harness("C06", "mps_file", proof=False, conc=120, targets=[M2B])
def h_file(H):
    import xmltodict
    from collections import OrderedDict
    d = H.tmpdir()
    conv = H.mod(M2B).MaccorToBiologicMb()
    n = H.int("n", 1, 6)
    steps, exps = [], []
    for i in range(n):
        stype, mode, value, limit, ends, reports = draw(_Pre(H, "s%d" % i), 3, 3)
        if not reports:
            reports = [("StepTime", "00:01:00")]
        # keep thresholds inside the default safety window so that no end condition is filtered out
        ends = [(k, op, t) for k, op, t in ends if not (k == "Voltage" and (H.num(t) >= F("4.45") or H.num(t) <= 0))]
        steps.append(g.step(stype, mode, value, None if limit is None else {"Voltage" if mode == "Current" else "Current": limit},
                            [g.end_entry(k, op, t, str(i + 2).zfill(3)) for k, op, t in ends], [g.report_entry(k, t) for k, t in reports]))
        exps += expected(stype, mode, value, limit, ends, reports, conv)
    steps.append(g.step("End"))
    with open(d + "/p.000", "w") as f:
        f.write(xmltodict.unparse({"MaccorTestProcedure": OrderedDict(ProcSteps=OrderedDict(TestStep=steps))}, pretty=True))
    r = H.run(conv.convert, d + "/p.000", d, "out")
    H.ensure("converted", r.ok, r)
    text = open(r.value[0], "rb").read().decode("ISO-8859-1")
    head, techs = parse_mps(text)
    H.ensure("one technique", len(techs) == 1 and techs[0][0] == 1 and techs[0][1] == "Modulo Bat", techs)
    H.ensure("header counts techniques", "Number of linked techniques : 1\r\n" in head)
    fields = techs[0][2]
    H.ensure("template fields", list(fields) == list(conv._blank_seq), list(fields))
    H.ensure("one column per sequence", all(len(v) == len(exps) for v in fields.values()), fields)
    for i, (ctrl, en, rp) in enumerate(exps):
        seq = {k: v[i] for k, v in fields.items()}
        for k in ("Ns", "lim_nb", "rec_nb", "lim1_seq", "lim2_seq", "lim3_seq"):
            H.ensure("integer field", seq[k].isdigit(), seq)
            seq[k] = int(seq[k])
        blank = {k: str(v).strip() for k, v in conv._blank_seq.items()}
        check_seq(H, conv, seq, "file", ctrl, en, rp, i, blank)


class _Pre:
    """prefix every draw name"""
    def __init__(self, H, p):
        self.H, self.p, self.sym = H, p, H.sym

    def __getattr__(self, a):
        f = getattr(self.H, a)
        return lambda name, *x, **k: f(self.p + name, *x, **k)
