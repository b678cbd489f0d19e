"""C22: a parameter table yields exactly one protocol file per usable row, and says which rows failed."""
import contextlib
import csv
import os
import re
from vc.harness import harness
from vc.values import and_, or_, not_

GP, MAC, BIO, PROT = "beep.protocol.generate_protocol", "beep.protocol.maccor", "beep.protocol.biologic", "beep.protocol"

META = {
    "title": "A parameter table yields one protocol file per usable row",
    "statement": "Generating protocols from a csv table handles every row in order, whatever the other rows are: a row whose template is a shipped Maccor template of known layout, or the BioLogic formation template, yields exactly one file <project_name>_<seq_num, six digits> with extension .000 in procedures/ or .mps in settings/ of the output directory, made by the generator of that template and project from that row's own parameters, its own position, and the diagnostic parameters of the set it names; a RapidC row runs the charging waveform and a Drive row the driving waveform made from that row. A row with any other template (missing, unknown layout, Arbin schedule) yields no file and one entry in the failures that names the template. The returned list holds exactly the files written, in row order; result is success exactly if no row failed; the message counts files and rows; the names file in names/ lists the names of the generated runs in order, each followed by an underscore.",
    "over": ["inputs", "histories"],
    "qtext": "every table of up to 3 rows over all kinds of templates and projects, with every sequence number and parameter value",
    "why": "tests count the files of uniform tables; mixtures of templates, failing rows in between, the diagnostic set of the right row and the reported result are not checked",
    "files": ["beep/protocol/generate_protocol.py"],
    "mechanism": [{"name": "generate_protocol_files_from_csv", "where": "beep/protocol/generate_protocol.py:88"}, {"name": "template_detection", "where": "beep/protocol/generate_protocol.py:69"}],
    "observe": ["values returned by generate_protocol_files_from_csv", "files under the output directory"],
    "level": "proof",
    "level_note": "proved for all parameter values and every table of up to 3 rows, modularly against the contracts of the protocol generators (C10, C11); the content of the written files: bounded stand-in on the shipped parameter tables",
    "assumptions": ["the protocol generators satisfy C10 and C11", "pandas read_csv and iterrows give the cells of each row by column name, in order", "file names of the rows differ"],
    "bounded": ["written_files: tables of up to 4 rows drawn from the shipped tables"],
}

# template, project -> which generator, with which extension
KINDS = [("EXP.000", "Prj", "exp", ".000"), ("diagnosticV2.000", "Prj", "v2", ".000"), ("diagnosticV4.000", "RapidC", "chg", ".000"), ("diagnosticV5.000", "Drive", "drv", ".000"),
         ("diagnosticV3.000", "PreDiag", "reg", ".000"), ("formationV1.mps", "Form", "form", ".mps"), ("drivingV1.000", "Prj", "reg", ".000"),
         ("other.mps", "Prj", None, None), ("nothere.000", "Prj", None, None), ("cell.sdu", "Prj", None, None), ("table.txt", "Prj", None, None)]


class Rec:
    """contract of a protocol under construction: remembers what it was made from, writes itself"""
    def __init__(self, log, *made):
        self.log, self.made = log, list(made)

    def add_procedure_diagcyclev2(self, cap, diag):
        self.made.append(("diag2", cap, diag))

    def generate_procedure_diagcyclev3(self, cap, diag):
        self.made.append(("diag3", cap, diag))

    def formation_protocol_bcs(self, row):
        self.made.append(("formation", row))
        return self

    def to_file(self, filename, *a, **k):
        self.log.append((filename, list(self.made)))


@contextlib.contextmanager
def generators(H, log):
    m, g, b = H.mod(MAC), H.mod(GP), H.mod(BIO)
    P, S = m.Procedure, b.Settings
    st = {
        (P, "from_exp"): staticmethod(lambda cutoff_voltage, charge_rate, discharge_rate, template=None: Rec(log, ("exp", cutoff_voltage, charge_rate, discharge_rate, template))),
        (P, "from_regcyclev2"): staticmethod(lambda row: Rec(log, ("v2", row))),
        (P, "generate_procedure_regcyclev3"): staticmethod(lambda i, row, template=None: Rec(log, ("reg", i, row, template))),
        (P, "generate_procedure_chargingv1"): staticmethod(lambda i, row, wave, template=None: Rec(log, ("chg", i, row, wave, template))),
        (P, "generate_procedure_drivingv1"): staticmethod(lambda i, row, wave, template=None: Rec(log, ("drv", i, row, wave, template))),
        (S, "from_file"): staticmethod(lambda name, *a, **k: Rec(log, ("form", name))),
    }
    for mod in (m, g):
        st[(mod, "insert_charging_parametersv1")] = lambda row, waveform_directory=None: ("charging waveform", row, waveform_directory)
        st[(mod, "insert_driving_parametersv1")] = lambda row, waveform_directory=None: ("driving waveform", row, waveform_directory)
    none = object()
    old = [(o, k, o.__dict__.get(k, none)) for o, k in st]
    for (o, k), v in st.items():
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in old:
            if v is none:
                delattr(o, k)
            else:
                setattr(o, k, v)


NUM = ["capacity_nominal", "cutoff_voltage", "charge_rate", "discharge_rate"]


def samerow(H, row, want):
    return and_(*[H.eq(row[c], want[c]) for c in want])


def is_template(path, want, base):
    return isinstance(path, str) and os.path.realpath(path) == os.path.realpath(os.path.join(base, want))


@harness("C22", "rows", conc=200, targets=[GP], budget=400)
def h_rows(H):
    import warnings
    n = H.choice("n", [0, 1, 2, 3])
    kinds = [H.choice("kind%d" % i, KINDS if i < 2 or not H.sym else [KINDS[4], KINDS[7], KINDS[5]]) for i in range(n)]
    have_diag = H.choice("diagnostics", [True, False]) if not any(k[2] in ("reg", "chg", "drv", "v2") for k in kinds) else True
    diag_sets = ["Tesla21700", "PHEVNMC"]
    rows = []
    for i, k in enumerate(kinds):
        r = {"project_name": k[1], "seq_num": H.int("seq%d" % i, 0, 999999), "template": k[0]}
        for c in NUM:
            r[c] = H.real("%s%d" % (c, i), 0, 100, decimals=None if H.sym else 3)
        if have_diag:
            r["diagnostic_parameter_set"] = H.choice("set%d" % i, diag_sets) if i < 2 else diag_sets[0]
        rows.append(r)
    if not rows:
        cols = {"project_name": [], "seq_num": [], "template": []}
    else:
        cols = {c: [r[c] for r in rows] for c in rows[0]}
    d = H.tmpdir()
    src = H.pcsv(os.path.join(d, "Mix_parameters - GP.csv"), cols)
    log = []
    base, bbase = H.mod(PROT).PROCEDURE_TEMPLATE_DIR, H.mod(PROT).BIOLOGIC_TEMPLATE_DIR
    H.cover("inputs")
    with generators(H, log), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = H.run(H.mod(GP).generate_protocol_files_from_csv, src, d)
    H.ensure("generated", r.ok, r)
    if not r.ok:
        return
    files, failures, result, message = r.value
    good = [i for i in range(n) if kinds[i][2]]
    bad = [i for i in range(n) if not kinds[i][2]]
    H.ensure("one file per usable row", len(log) == len(good) and len(files) == len(good), (kinds, files))
    H.ensure("one failure per unusable row", len(failures) == len(bad), failures)
    H.ensure("success exactly if no row failed", result == ("error" if bad else "success"), result)
    H.ensure("message counts", message["comment"] == "Generated %d of %d protocols" % (len(good), n) and (message["error"] == "") == (not bad) and (not bad or "%d of %d" % (len(bad), n) in message["error"]), message)
    if len(failures) == len(bad):
        for f, i in zip(failures, bad):
            H.ensure("a failure tells why", bool(f["error"]) and (kinds[i][0] in f["comment"] or kinds[i][0].endswith(".sdu") and "Schedule" in f["comment"]), (kinds[i], f))
    if not (len(log) == len(good) == len(files)):
        return
    diag = diag_table(H)
    for (path, made), f, i in zip(log, files, good):
        template, project, how, ext = kinds[i]
        row = rows[i]
        stem = project + "_" + six(H, row["seq_num"])
        H.ensure("name and place of the file", H.eq(path, os.path.join(d, "settings" if ext == ".mps" else "procedures", "") + stem + ext), path)
        H.ensure("the list holds the files written", H.eq(f, path), (f, path))
        first = made[0]
        H.ensure("generator of the template", first[0] == how, (kinds[i], first[0]))
        if first[0] != how:
            continue
        if how == "exp":
            H.ensure("parameters of the row", and_(*[H.eq(a, row[c]) for a, c in zip(first[1:4], NUM[1:])]), first)
            H.ensure("nothing else", len(made) == 1 and first[4] in (None, os.path.join(base, template)), made)
            continue
        if how == "form":
            H.ensure("template of the row", is_template(first[1], template, bbase), first)
            H.ensure("parameters of the row", len(made) == 2 and samerow(H, made[1][1], row), made)
            continue
        pos = 1 if how == "v2" else 2
        H.ensure("parameters of the row", samerow(H, first[pos], row), first)
        if how != "v2":
            H.ensure("position of the row", first[1] == i, first)
            H.ensure("template of the row", is_template(first[-1], template, base), first)
        if how in ("chg", "drv"):
            w = first[3]
            H.ensure("waveform of the row", w[0] == {"chg": "charging waveform", "drv": "driving waveform"}[how] and samerow(H, w[1], row) and w[2] == os.path.join(d, "mwf_files"), w)
        H.ensure("diagnostic cycles added once", len(made) == 2 and made[1][0] == ("diag2" if how == "v2" else "diag3"), made)
        if len(made) == 2:
            H.ensure("nominal capacity of the row", H.eq(made[1][1], row["capacity_nominal"]), made)
            H.ensure("diagnostic parameters of the row's set", {k: str(v) for k, v in dict(made[1][2]).items()} == diag[row["diagnostic_parameter_set"]], made)
    listed = name_lines(H, d)
    H.ensure("names of the generated runs", listed is not None and len(listed) == len(good) and and_(*[H.eq(a, kinds[i][1] + "_" + six(H, rows[i]["seq_num"]) + "_") for a, i in zip(listed, good)]), listed)


def six(H, v):
    return H.fmt(v, "06d")


def diag_table(H):
    import pandas as pd
    p = os.path.join(H.mod(PROT).PROCEDURE_TEMPLATE_DIR, "PreDiag_parameters - DP.csv")
    df = pd.read_csv(p)
    return {r["diagnostic_parameter_set"]: {c: str(r[c]) for c in df.columns} for _, r in df.iterrows()}


def name_lines(H, d):
    fs = [f for f in H.vlist(os.path.join(d, "names")) if os.path.basename(f).startswith("Mix_names_") and f.endswith(".csv")]
    if len(fs) != 1:
        return None
    return H.vlines(fs[0])


TABLES = ["PreDiag", "Iris", "Talos", "Form", "PredictionDiagnostics", "RapidC"]


def shipped(H, name):
    import pandas as pd
    for root in (os.path.join(os.path.dirname(H.mod("beep").__file__), "protocol"), os.path.join(os.path.dirname(H.mod("beep").__file__), "tests", "test_files")):
        for p, _, fs in os.walk(root):
            if name + "_parameters - GP.csv" in fs:
                return pd.read_csv(os.path.join(p, name + "_parameters - GP.csv"))
    return None


@harness("C22", "written_files", proof=False, conc=40, targets=[GP])
def h_files(H):
    import warnings
    import pandas as pd
    warnings.simplefilter("ignore")
    d, e = H.tmpdir(), H.tmpdir()
    rows = []
    drive = H.choice("drive", [False, False, True])      # columns left blank turn counts into floats
    for i in range(H.int("n", 1, 4)):
        t = shipped(H, "Drive" if drive else H.choice("table%d" % i, TABLES))
        row = t.iloc[[H.int("row%d" % i, 0, len(t) - 1)]].copy()
        row["seq_num"] = 100 * i + H.int("seq%d" % i, 0, 99)
        if H.choice("spoil%d" % i, [False, False, False, True]):
            row["template"] = H.choice("bad%d" % i, ["nothere.000", "x.mps", "y.sdu"])
        rows.append(row)
    table = pd.concat(rows, ignore_index=True)
    src = os.path.join(d, "Mix_parameters - GP.csv")
    table.to_csv(src, index=False)
    table = pd.read_csv(src)
    H.cover("inputs")
    r = H.run(H.mod(GP).generate_protocol_files_from_csv, src, d)
    H.ensure("generated", r.ok, r)
    if not r.ok:
        return
    M, B, T = H.mod(MAC), H.mod(BIO), H.mod(PROT)
    diags = pd.read_csv(os.path.join(T.PROCEDURE_TEMPLATE_DIR, "PreDiag_parameters - DP.csv"))
    want = []
    for i in range(len(table)):
        row = table.iloc[i]
        tp, stem = row["template"], "%s_%06d" % (row["project_name"], row["seq_num"])
        full = os.path.join(T.PROCEDURE_TEMPLATE_DIR, tp)
        out = os.path.join(e, stem)
        if tp == "formationV1.mps":
            B.Settings.from_file(os.path.join(T.BIOLOGIC_TEMPLATE_DIR, tp)).formation_protocol_bcs(row).to_file(out)
            want.append(("settings/%s.mps" % stem, out))
            continue
        if tp not in ("diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000", "diagnosticV5.000"):
            continue
        dg = diags[diags["diagnostic_parameter_set"] == row["diagnostic_parameter_set"]].iloc[0]
        if tp == "diagnosticV2.000":
            p = M.Procedure.from_regcyclev2(row)
            p.add_procedure_diagcyclev2(row["capacity_nominal"], dg)
        else:
            if row["project_name"] == "RapidC":
                p = M.Procedure.generate_procedure_chargingv1(i, row, M.insert_charging_parametersv1(row, waveform_directory=os.path.join(e, "mwf_files")), template=full)
            elif row["project_name"] == "Drive":
                p = M.Procedure.generate_procedure_drivingv1(i, row, M.insert_driving_parametersv1(row, waveform_directory=os.path.join(e, "mwf_files")), template=full)
            else:
                p = M.Procedure.generate_procedure_regcyclev3(i, row, template=full)
            p.generate_procedure_diagcyclev3(row["capacity_nominal"], dg)
        p.to_file(out)
        want.append(("procedures/%s.000" % stem, out))
    files, failures, result, message = r.value
    H.ensure("the list holds the files written", [os.path.realpath(f) for f in files] == [os.path.realpath(os.path.join(d, w)) for w, _ in want], files)
    H.ensure("no other files", sorted(s + "/" + f for s in ("procedures", "settings") for f in os.listdir(os.path.join(d, s))) == sorted(w for w, _ in want), files)
    H.ensure("one failure per unusable row", len(failures) == len(table) - len(want), failures)
    for w, out in want:
        with open(os.path.join(d, w), "rb") as a, open(out, "rb") as b:
            H.ensure("the file holds the protocol of its row", a.read() == b.read().replace(e.encode(), d.encode()), w)
