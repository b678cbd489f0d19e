"""C18: a raw cycler file becomes a run with the same records in BEEP's columns and units."""
import math
import os
from datetime import datetime, timedelta

from vc.harness import harness
from vc.values import Sym, and_, or_, not_, implies

S = "beep.structure."
META = {
    "title": "Raw cycler files are read into the same records in BEEP units",
    "statement": "from_file of every supported cycler (Arbin, Maccor, BioLogic, Battery Archive, Neware, Novonix, Indigo) returns a run whose raw data has one row per record of the file, in file order, with the recorded voltage, current, cycle, step, times and temperature under BEEP's column names in A, V, s, Ah and Wh (mA, mAh, mWh, C and J converted; Novonix times stay as recorded), and ISO timestamps in UTC (local US/Pacific time for Maccor, Neware and BioLogic, daylight saving observed; a date without time is midnight). Charge and discharge capacity and energy follow each format's definition: Maccor quantities accumulate over the steps of a cycle of the matching state (waveform quantities where recorded) and restart with each cycle, also in an unfinished last step; Novonix discharge values count down from the cycle's largest charge (or its largest value when the cycle has no charge); Indigo values belong to charge in odd and discharge in even half cycles; Battery Archive steps are rest/charge/discharge by the sign of the current with step time from the start of the step. Metadata (barcode, protocol, channel, dates) is that of the file or its companion; validation schema follows the project name. Unrecognised input (unknown Novonix step types, garbled dates, several Indigo cells, missing BioLogic header or unknown extension) is refused rather than misread.",
    "over": ["inputs"],
    "qtext": "every raw file of each format: any number of records, any recorded values, any step and cycle structure, presence or absence of companions",
    "why": "tests read a handful of recorded files (most of them not even shipped) and compare a few cells; other step structures, unfinished steps, single-record files, other column orders and companion files are never sampled",
    "files": ["beep/structure/maccor.py", "beep/structure/arbin.py", "beep/structure/biologic.py", "beep/structure/battery_archive.py", "beep/structure/neware.py", "beep/structure/novonix.py", "beep/structure/indigo.py", "beep/conversion_schemas/*.yaml"],
    "mechanism": [{"name": "MaccorDatapath.from_file, quantity_sum, parse_metadata, correct_timestamp", "where": "beep/structure/maccor.py:72"},
                  {"name": "ArbinDatapath.from_file", "where": "beep/structure/arbin.py:33"},
                  {"name": "BiologicDatapath.from_file, parse_metadata", "where": "beep/structure/biologic.py:60"},
                  {"name": "BatteryArchiveDatapath.from_file", "where": "beep/structure/battery_archive.py:60"},
                  {"name": "NewareDatapath.from_file", "where": "beep/structure/neware.py:19"},
                  {"name": "NovonixDatapath.from_file", "where": "beep/structure/novonix.py:18"},
                  {"name": "IndigoDatapath.from_file", "where": "beep/structure/indigo.py:20"}],
    "observe": ["beep.structure.*.from_file", "MaccorDatapath.quantity_sum", "MaccorDatapath.parse_metadata", "MaccorDatapath.correct_timestamp", "MaccorDatapath.load_eis"],
    "level": "proof",
    "level_note": "Maccor quantity_sum and from_file, Arbin from_file, Battery Archive from_file, decide_step_index, Neware step_time and the metadata splitter: obligations discharged for all recorded values on the real pandas code, per enumerated layout of steps and cycles; Novonix, Neware, Indigo and BioLogic from_file (text and HDF5 parsing), timestamps and EIS files: bounded stand-ins on generated files against independent oracles",
    "assumptions": ["pandas.read_csv yields the cells of the file by column name in order (stated contract of the virtual file); float32/float64 conversion treated as exact",
                    "pandas selects, shifts, aligns and compares cells as it does on floats (real pandas executed on object columns of symbolic cells)"],
    "bounded": ["layouts: 1-3 records per step, up to 6 steps and 4 cycles per proved file",
                "adjacent Maccor steps have different step numbers, and every finished step ends with an end-of-step status",
                "not claimed: Novonix and Indigo test_time units, Arbin data_point (consumed as index), local-time Battery Archive date_time, Novonix metadata phrases that occur in other lines"],
}


def same(H, a, b, rel=1e-5):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return H.eq(a, b)
    if isinstance(b, str) or isinstance(a, str) or a is None or b is None:
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def column(H, label, got, want, rel=1e-5):
    """one row per record, in order"""
    got = list(got)
    H.ensure("one row per record", len(got) == len(want), (label, len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        H.ensure(label, same(H, a, b, rel), i)


def pacific_to_utc(t):
    """UTC of a US/Pacific wall clock time (rules in force since 2007; ambiguous and skipped hours read as daylight time)"""
    def sunday(month, n):
        d = datetime(t.year, month, 1)
        d += timedelta(days=(6 - d.weekday()) % 7 + 7 * (n - 1))
        return d.replace(hour=2)
    off = 7 if sunday(3, 2) <= t < sunday(11, 1) else 8
    return t + timedelta(hours=off)


# ---------------------------------------------------------------- Maccor
M = S + "maccor"
# (cycle, step number, state, rows, waveform)
LAYOUTS = {
    "cc": [(1, 1, "R", 1, 0), (1, 2, "C", 2, 0), (1, 3, "D", 2, 0), (2, 2, "C", 2, 0), (2, 3, "D", 1, 0)],
    "two-charges": [(0, 1, "C", 2, 0), (0, 2, "R", 1, 0), (0, 3, "C", 2, 0), (0, 4, "D", 1, 0), (0, 5, "D", 2, 0), (1, 1, "C", 1, 0)],
    "single-rows": [(1, 1, "D", 1, 0), (1, 2, "C", 1, 0), (1, 3, "D", 1, 0), (2, 4, "D", 1, 0), (2, 5, "C", 1, 0)],
    "cycle-each": [(1, 1, "C", 2, 0), (2, 2, "C", 2, 0), (3, 1, "D", 2, 0), (4, 2, "C", 1, 0)],
    "one-step": [(7, 3, "C", 3, 0)],
    "pause": [(1, 1, "C", 2, 0), (1, 2, "P", 1, 0), (1, 3, "D", 2, 0), (1, 4, "S", 1, 0), (1, 5, "C", 2, 0)],
    "waveform": [(1, 1, "C", 2, 0), (1, 2, "D", 3, 1), (1, 3, "C", 1, 0), (2, 4, "D", 2, 1), (2, 5, "D", 1, 0)],
    "waveform-last": [(1, 1, "D", 2, 0), (2, 2, "C", 2, 0), (2, 3, "D", 2, 1)],
}


def maccor_rows(H, layout, unfinished, sym, mid):
    """records of the layout; sym: which quantities are arbitrary; mid: end-of-step status inside waveform steps"""
    rows = []
    L = LAYOUTS[layout]
    wf_any = any(w for *_, w in L)
    for k, (cyc, st, state, n, wf) in enumerate(L):
        for i in range(n):
            r = dict(cycle=cyc, step=st, state=state, k=k)
            for q in ("cap", "en", "wcc", "wdc", "wce", "wde"):
                j = len(rows)
                if q.startswith("w") and not wf:
                    r[q] = float("nan")
                elif q in sym:
                    r[q] = H.real("%s%d" % (q, j), 0, 100)
                else:
                    r[q] = 0.25 * j + 0.125 * len(q)
            last = i == n - 1
            r["es"] = (128 + 7 * k) % 128 + 128 if last and not (unfinished and k == len(L) - 1) else 130 if wf and mid else 1
            rows.append(r)
    return rows, wf_any


def maccor_expected(H, rows, wf_any, quantity, code):
    """accumulated over the steps of the cycle"""
    own = []
    wq = {("cap", "C"): "wcc", ("cap", "D"): "wdc", ("en", "C"): "wce", ("en", "D"): "wde"}[(quantity, code)]
    for r in rows:
        w = r[wq]
        own.append(w if not (isinstance(w, float) and w != w) else r[quantity] if r["state"] == code else 0.0)
    out, base = [], 0.0
    for i, r in enumerate(rows):
        if i and r["k"] != rows[i - 1]["k"]:
            base = 0.0 if r["cycle"] != rows[i - 1]["cycle"] else base + own[i - 1]
        out.append(base + own[i])
    return out


QS = [("cap", "C", "capacity", "charge"), ("cap", "D", "capacity", "discharge"), ("en", "C", "energy", "charge"), ("en", "D", "energy", "discharge")]


@harness("C18", "maccor_quantity_sum", conc=150, targets=[M], budget=200)
def h_qsum(H):
    q, code, qn, sn = H.choice("quantity", QS)
    lay = H.choice("layout", sorted(LAYOUTS))
    rows, wf_any = maccor_rows(H, lay, H.choice("unfinished", [False, True]), {"cap": ("cap", "wcc", "wdc"), "en": ("en", "wce", "wde")}[q], H.choice("mid", [False, True]))
    cols = {"cycle_index": [r["cycle"] for r in rows], "step_index": [r["step"] for r in rows], "_state": [r["state"] for r in rows], "_ending_status": [r["es"] for r in rows],
            "_capacity": [r["cap"] for r in rows], "_energy": [r["en"] for r in rows], "_wf_chg_cap": [r["wcc"] for r in rows], "_wf_dis_cap": [r["wdc"] for r in rows],
            "_wf_chg_e": [r["wce"] for r in rows], "_wf_dis_e": [r["wde"] for r in rows]}
    df = H.pframe(cols)
    H.cover("run")
    r = H.run(H.mod(M).MaccorDatapath.quantity_sum, df, qn, sn)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    column(H, "accumulated over the steps of the cycle", r.value, maccor_expected(H, rows, wf_any, q, code))
    H.ensure("records unchanged", all(list(df[c])[i] is v or list(df[c])[i] == v or v != v for c in ("_capacity", "_energy") for i, v in enumerate(cols[c])) if not any(isinstance(v, Sym) for c in ("_capacity", "_energy") for v in cols[c]) else and_(True, *[H.eq(list(df[c])[i], v) for c in ("_capacity", "_energy") for i, v in enumerate(cols[c])]))


def stamp(i):
    return datetime(2019, 10, 21, 23, 59, 58) + timedelta(seconds=i)


@harness("C18", "maccor_file", conc=80, targets=[M], budget=200)
def h_maccor(H):
    lay = H.choice("layout", ["cc", "two-charges", "waveform", "one-step"])
    rows, wf_any = maccor_rows(H, lay, H.choice("unfinished", [False, True]), ("cap", "wdc") if H.choice("arbitrary", [0, 1]) else ("en", "wce"), False)
    n = len(rows)
    name, schema = H.choice("name", [("PreDiag_000287_000128.092", "schema-maccor-2170.yaml"), ("xTESLADIAG_000019CH70.070", "schema-maccor-2170.yaml"), ("PredictionDiagnostics_000001_00012E.003", "schema-maccor-2170.yaml"),
                                      ("Talos_1_b.txt", "schema-maccor-2170.yaml")])
    test = [H.real("t%d" % i, 0, 1e6) for i in range(n)]
    volt = [H.real("v%d" % i, 0, 5) for i in range(n)]
    cur = [H.real("i%d" % i, -10, 10) for i in range(n)]
    ir = [H.real("r%d" % i, 0, 1) for i in range(n)]
    when = [stamp(i) for i in range(n)]
    missing = H.choice("midnight", [False, True])
    dpt = [w.strftime("%m/%d/%Y") if missing and (w.hour, w.minute, w.second) == (0, 0, 0) else w.strftime("%m/%d/%Y %H:%M:%S") for w in when]
    cols = {"Rec#": list(range(1, n + 1)), "Cyc#": [r["cycle"] for r in rows], "Step": [r["step"] for r in rows], "Test (Sec)": test, "Step (Sec)": [0.5 * i for i in range(n)],
            "Amp-hr": [r["cap"] for r in rows], "Watt-hr": [r["en"] for r in rows], "Amps": cur, "Volts": volt, "State": [r["state"] for r in rows], "ES": [r["es"] for r in rows],
            "DPt Time": dpt, "ACImp/Ohms": [0.0] * n, "DCIR/Ohms": ir, "WF Chg Cap": [r["wcc"] for r in rows], "WF Dis Cap": [r["wdc"] for r in rows], "WF Chg E": [r["wce"] for r in rows],
            "WF Dis E": [r["wde"] for r in rows], "Range": [3] * n}
    for j in range(1, 16):
        cols["VAR%d" % j] = [0.5 * j] * n
    meta = {"_today_datetime": "07/23/2019", "start_datetime": "03/07/2019", "filename": "C:\\Data\\x.092", "protocol": "PreDiag_000287.000", "barcode": "000128"}
    line = "Today's Date\t07/23/2019  Date of Test:\t03/07/2019  Filename:\tC:\\Data\\x.092    Procedure:\tPreDiag_000287.000    Comment/Barcode:\t000128  "
    path = os.path.join(H.tmpdir(), name)
    H.pcsv(path, cols, sep="\t", preamble=[line])
    H.cover("run")
    r = H.run(H.mod(M).MaccorDatapath.from_file, path)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    d = r.value.raw_data
    for c, want in [("data_point", cols["Rec#"]), ("cycle_index", cols["Cyc#"]), ("step_index", cols["Step"]), ("test_time", test), ("step_time", cols["Step (Sec)"]), ("current", cur), ("voltage", volt),
                    ("internal_resistance", ir), ("_state", cols["State"]), ("_var3", cols["VAR3"]), ("date_time", dpt)]:
        H.ensure("column present", c in d.columns, c)
        column(H, "recorded values", d[c], want)
    for q, code, qn, sn in QS:
        column(H, "accumulated %s %s" % (sn, qn), d["%s_%s" % (sn, qn)], maccor_expected(H, rows, wf_any, q, code))
    column(H, "UTC timestamps", list(d["date_time_iso"]), [pacific_to_utc(w).strftime("%Y-%m-%dT%H:%M:%S+00:00") for w in when])
    m = r.value.metadata
    for k, v in meta.items():
        H.ensure("metadata of the file", m.raw.get(k) == v, (k, m.raw.get(k)))
    H.ensure("barcode and protocol", m.barcode == "000128" and m.protocol == "PreDiag_000287.000")
    ext = name.rsplit(".", 1)[1]
    if ext.isdigit():
        H.ensure("channel of the file name", m.channel_id == int(ext), m.channel_id)
    else:
        H.ensure("no channel", m.channel_id is None, m.channel_id)
    H.ensure("paths", r.value.paths.get("raw") == path and r.value.paths.get("metadata") == path)
    H.ensure("schema of the project", os.path.basename(r.value.schema) == schema, r.value.schema)


@harness("C18", "maccor_metadata_line", conc=60, targets=[M])
def h_split(H):
    keys = ["Today's Date", "Date of Test", "Filename", "Procedure", "Comment/Barcode"]
    vals = [H.word("v%d" % i, 40, banned=":'", pool=["07/23/2019", "a b\\c.000", "000128"]) for i in range(5)]
    line = ""
    for i, (f, v) in enumerate(zip(keys, vals)):
        line = line + ("  " if i else "") + f + (":" if i else "") + "\t" + v
    r = H.run(H.mod(M).MaccorDatapath.parse_metadata, line)
    H.cover("run")
    H.ensure("no error", r.ok, r)
    H.ensure("one value per field", r.ok and sorted(r.value) == sorted(keys), r)
    for k, v in zip(keys, vals):
        H.ensure("text between the fields", len(r.value[k]) == 1 and H.eq(r.value[k][0], v), k)


@harness("C18", "timestamps", proof=False, conc=600, targets=[M])
def h_stamp(H):
    rng = H.rng
    y = rng.randint(2007, 2035)
    if rng.random() < 0.4:          # around the changes of daylight saving time
        mth = rng.choice([3, 11])
        d = datetime(y, mth, 1)
        d += timedelta(days=(6 - d.weekday()) % 7 + (7 if mth == 3 else 0), seconds=rng.randint(0, 6 * 3600))
    else:
        d = datetime(y, 1, 1) + timedelta(seconds=rng.randint(0, 364 * 86400))
    date_only = rng.random() < 0.2
    if date_only:
        d = d.replace(hour=0, minute=0, second=0)
    x = d.strftime("%m/%d/%Y" if date_only else "%m/%d/%Y %H:%M:%S")
    garbled = rng.random() < 0.15
    if garbled:
        x = rng.choice([d.strftime("%m/%d/%Y %H:%M"), d.strftime("%m/%d/%Y ") + "1a:00:00", d.strftime("%Y-%m-%d %H:%M:%S"), d.strftime("%m/%d/%Y %H:%M:%S") + " PM", ""])
    H._log("x", x)
    r = H.run(H.mod(M).MaccorDatapath.correct_timestamp, x)
    if garbled:
        H.ensure("garbled timestamps refused", not r.ok and isinstance(r.exc, ValueError), (x, r))
        return
    H.ensure("no error", r.ok, r)
    H.ensure("UTC of the Pacific time", r.ok and r.value == pacific_to_utc(d).strftime("%Y-%m-%dT%H:%M:%S+00:00"), (x, r.value))


@harness("C18", "eis", proof=False, conc=25, targets=[M])
def h_eis(H):
    rng = H.rng
    d = H.tmpdir()
    raw = os.path.join(d, rng.choice(["Run_1_000.059", "x.y.003"]))
    dp = H.mod(M).MaccorDatapath(raw_data=None, metadata={}, paths={"raw": raw, "metadata": raw})
    n = rng.choice([0, 1, 3])
    specs = []
    base, ext = raw.rsplit(".", 1)
    for k in range(n):
        t = datetime(2019, 1, 1) + timedelta(minutes=rng.randint(0, 10 ** 6))
        freq = [round(10 ** (4 - 0.5 * i), 4) for i in range(rng.randint(1, 6))]
        zr = [rng.uniform(0, 1) for _ in freq]
        p = "%s.%02dof16.%s" % (base, k + 1, ext)
        with open(p, "w") as f:
            f.write("Header\nFrequency Sweep:  Potentiostat Open Circut\nMethod%d\n%s\na\nb\n" % (k, p))
            f.write("Start Date: %s  Start Time: %s\n" % (t.strftime("%A, %B %d, %Y"), t.strftime("%H:%M")))
            f.write("c\nA1 B%d 3\nd\nFrequency\tZr\n" % k)
            for a, b in zip(freq, zr):
                f.write("%r\t%r\n" % (a, b))
        specs.append((p, t, freq, zr, k))
    open(os.path.join(d, "other.01of16.%s" % ext), "w").close()
    explicit = rng.random() < 0.5 and n
    want = specs[::-1] if explicit else specs
    r = H.run(dp.load_eis, [s[0] for s in want] if explicit else None)
    H.ensure("no error", r.ok, r)
    H.ensure("one spectrum per file of the run", len(dp.eis) == n, (len(dp.eis), n))
    H.ensure("paths recorded", sorted(dp.paths["eis"]) == sorted(s[0] for s in specs))
    for p, e in zip(dp.paths["eis"], dp.eis):
        _, t, freq, zr, k = [s for s in specs if s[0] == p][0]
        column(H, "spectrum", e.data["Frequency"], freq)
        column(H, "spectrum", e.data["Zr"], zr)
        H.ensure("metadata", e.metadata["start"] == t.isoformat() and e.metadata["frequency_sweep"] == "Potentiostat Open Circuit" and e.metadata["method"].strip() == "Method%d" % k
                 and e.metadata["line_8"] == ["A1", "B%d" % k, "3"], e.metadata)


# ---------------------------------------------------------------- Arbin
@harness("C18", "arbin_file", conc=100, targets=[S + "arbin"], budget=150)
def h_arbin(H):
    n = H.choice("records", [1, 3])
    full = H.choice("columns", ["all", "few"])
    stamps = [1492000000.0 + 700.25 * i for i in range(n)]
    cols = {"Data_Point": list(range(n)), "Test_Time": [H.real("t%d" % i, 0, 1e6) for i in range(n)], "DateTime": stamps, "Step_Time": [H.real("s%d" % i, 0, 1e5) for i in range(n)],
            "Step_Index": [H.int("st%d" % i, 0, 100) for i in range(n)], "Cycle_Index": [H.int("c%d" % i, 0, 10 ** 6) for i in range(n)], "Current": [H.real("i%d" % i, -10, 10) for i in range(n)],
            "Voltage": [H.real("v%d" % i, 0, 5) for i in range(n)], "Charge_Capacity": [H.real("qc%d" % i, 0, 10) for i in range(n)], "Discharge_Capacity": [H.real("qd%d" % i, 0, 10) for i in range(n)],
            "Charge_Energy": [H.real("ec%d" % i, 0, 40) for i in range(n)], "Discharge_Energy": [H.real("ed%d" % i, 0, 40) for i in range(n)]}
    names = {k: k.lower() for k in cols}
    names["DateTime"] = "date_time"
    if full == "all":
        cols.update({"dV/dt": [H.real("dv%d" % i, -1, 1) for i in range(n)], "Internal_Resistance": [H.real("r%d" % i, 0, 1) for i in range(n)], "Temperature": [H.real("T%d" % i, -40, 90) for i in range(n)],
                     "Extra": ["e%d" % i for i in range(n)]})
        names.update({"dV/dt": "_dv/dt", "Internal_Resistance": "internal_resistance", "Temperature": "temperature", "Extra": "extra"})
    d = H.tmpdir()
    name, schema = H.choice("name", [("2017-12-04_4_65C-69per_6C_CH29.csv", "schema-arbin-lfp.yaml"), ("FastCharge_000000_CH29.csv", "schema-arbin-lfp.yaml"), ("2018_x.csv", "schema-arbin-lfp.yaml"), ("Iris_000001_CH1.csv", "schema-arbin-nmc-phev.yaml"),
                                     ("Talos_001383_NCR18650618001_CH31.csv", "schema-arbin-18650-2170.yaml")])
    how = H.choice("metadata", ["companion", "given", "none"])
    path = os.path.join(d, name)
    H.pcsv(path, cols, index=True)
    mpath = path.replace(".csv", "_Metadata.csv") if how == "companion" else os.path.join(d, "m.csv")
    mcols = {"Test_ID": [296], "Device_ID": [1], "IV_Ch_ID": [H.int("ch", 0, 1000)], "First_Start_DateTime": [1512437476.0], "Schedule_File_Name": ["2017-12-04_tests\\20170630.sdu"], "Item_ID": ["el15"], "Resumed_Times": [0], "Grade_ID": [3]}
    if how != "none":
        H.pcsv(mpath, mcols)
    H.cover("run")
    f = H.mod(S + "arbin").ArbinDatapath.from_file
    r = H.run(f, path, mpath) if how == "given" else H.run(f, path)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    df = r.value.raw_data
    for c, v in cols.items():
        H.ensure("column present", names[c] in df.columns, names[c])
        column(H, "recorded values", df[names[c]], v, 1e-6)
    column(H, "UTC timestamps", df["date_time_iso"], [(datetime(1970, 1, 1) + timedelta(seconds=s)).isoformat() + "+00:00" for s in stamps])
    m = r.value.metadata
    if how == "none":
        H.ensure("no metadata", m.raw == {} and r.value.paths["metadata"] is None, m.raw)
    else:
        H.ensure("channel", H.eq(m.channel_id, mcols["IV_Ch_ID"][0]), m.channel_id)
        H.ensure("metadata of the companion", m.barcode == "el15" and m.protocol == mcols["Schedule_File_Name"][0] and m.raw["start_datetime"] == 1512437476.0 and m.raw["test_id"] == 296 and m.raw["_grade_id"] == 3, m.raw)
        H.ensure("metadata path", r.value.paths["metadata"] == mpath)
    H.ensure("raw path", r.value.paths["raw"] == path)
    H.ensure("schema of the project", os.path.basename(r.value.schema) == schema, r.value.schema)


# ---------------------------------------------------------------- Battery Archive
BA = S + "battery_archive"


@harness("C18", "battery_archive_step", conc=300, targets=[BA])
def h_bastep(H):
    i = H.real("i", -100, 100, pool=[0.0, 1e-7, -1e-7, 1e-3, -1e-3])
    r = H.run(H.mod(BA).decide_step_index, i)
    H.cover("run")
    H.ensure("no error", r.ok, r)
    want = 1 if H.case(and_(i < 0.000001, i > -0.000001)) else 3 if H.case(i < 0) else 2
    H.ensure("rest, charge or discharge by the current", r.value == want, r.value)


@harness("C18", "battery_archive_file", conc=120, targets=[BA], budget=150)
def h_ba(H):
    lay = H.choice("layout", ["RRCCD", "C", "CCDDC", "DRCRD", "RCD", "DD"])
    n = len(lay)
    rng = {"R": (-0.0000005, 0.0000005), "C": (0.001, 10), "D": (-10, -0.001)}
    cur = [H.real("i%d" % i, *rng[s]) for i, s in enumerate(lay)]
    t = [H.real("t%d" % i, 0, 1e6) for i in range(n)]
    when = [datetime(2021, 3, 13, 23, 59, 0, 500000) + timedelta(seconds=77.25 * i) for i in range(n)]
    cols = {"Date_Time": [w.strftime("%Y-%m-%d %H:%M:%S.%f") for w in when], "Test_Time (s)": t, "Cycle_Index": [H.int("c%d" % i, 0, 10 ** 5) for i in range(n)], "Current (A)": cur, "Voltage (V)": [H.real("v%d" % i, 0, 5) for i in range(n)],
            "Charge_Capacity (Ah)": [H.real("qc%d" % i, 0, 10) for i in range(n)], "Discharge_Capacity (Ah)": [H.real("qd%d" % i, 0, 10) for i in range(n)],
            "Charge_Energy (Wh)": [H.real("ec%d" % i, 0, 40) for i in range(n)], "Discharge_Energy (Wh)": [H.real("ed%d" % i, 0, 40) for i in range(n)]}
    if H.choice("temperatures", [False, True]):
        cols["Environment_Temperature (C)"] = [25.0] * n
        cols["Cell_Temperature (C)"] = [H.real("T%d" % i, -40, 90) for i in range(n)]
    path = os.path.join(H.tmpdir(), "A_timeseries.csv")
    H.pcsv(path, cols)
    H.cover("run")
    r = H.run(H.mod(BA).BatteryArchiveDatapath.from_file, path)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    df = r.value.raw_data
    nm = {"Test_Time (s)": "test_time", "Cycle_Index": "cycle_index", "Current (A)": "current", "Voltage (V)": "voltage", "Charge_Capacity (Ah)": "charge_capacity", "Discharge_Capacity (Ah)": "discharge_capacity",
          "Charge_Energy (Wh)": "charge_energy", "Discharge_Energy (Wh)": "discharge_energy", "Cell_Temperature (C)": "temperature"}
    for a, b in nm.items():
        if a in cols:
            H.ensure("column present", b in df.columns, b)
            column(H, "recorded values", df[b], cols[a])
    column(H, "step by the sign of the current", df["step_index"], [{"R": 1, "C": 2, "D": 3}[s] for s in lay])
    start, k = [], 0
    for i in range(n):
        if i and lay[i] != lay[i - 1]:
            k = i
        start.append(k)
    column(H, "time since the start of the step", df["step_time"], [t[i] - t[start[i]] for i in range(n)])
    column(H, "UTC timestamps", df["date_time_iso"], [w.isoformat() + "+00:00" for w in when])
    H.ensure("raw path", r.value.paths["raw"] == os.path.abspath(path))


# ---------------------------------------------------------------- Novonix
NV = S + "novonix"
NSTEPS = {0: "rest", 1: "cc_charge", 2: "cc_discharge", 7: "cccv_charge", 8: "cv_hold_charge", 9: "cccv_discharge", 10: "cv_hold_discharge"}
CHG = (1, 7, 8)
NCOL = ["Date and Time", "Cycle Number", "Step Type", "Run Time (h)", "Step Time (h)", "Current (A)", "Potential (V)", "Capacity (Ah)", "Temperature (\u00b0C)", "Circuit Temperature (\u00b0C)", "Energy (Wh)",
        "dVdt (I/h)", "dIdt (V/h)", "Step Number", "Step position"]


@harness("C18", "novonix_file", proof=False, conc=60, targets=[NV])
def h_novonix(H):
    import pandas as pd
    rng = H.rng
    kinds = [[0, 1, 2], [7, 0, 2], [2], [0, 2, 0], [1, 8, 9, 10], [9, 1], [1], [0], [2, 1, 2]]
    rows, step = [], 0
    t = datetime(2022, rng.randint(1, 12), 11, rng.choice([0, 11, 12, 23]), 58, 7)
    run = 0.0
    cyc = rng.randint(0, 3)
    for _ in range(rng.randint(1, 4)):
        for kind in rng.choice(kinds):
            step += 1
            cap = en = 0.0
            for i in range(rng.randint(1, 4)):
                rows.append(dict(t=t, cyc=cyc, kind=kind, run=run, st=i * 0.01, cur=rng.uniform(-1, 1), v=rng.uniform(2, 4.4), cap=rng.uniform(0, 0.3), en=rng.uniform(0, 1.2), T=rng.uniform(20, 40), cT=rng.uniform(20, 30), step=step, pos=i))
                run += 0.01
                t += timedelta(seconds=rng.choice([1, 36, 1800]))
        cyc += 1
    bad = rng.choice([None, None, None, None, "step", "date", "header"])
    if bad == "step":
        rng.choice(rows)["kind"] = rng.choice([3, 4, 5, 6, 11])
    fmt = rng.choice(["%Y-%m-%d %I:%M:%S %p", "%m/%d/%Y %I:%M:%S %p"])
    if bad == "date":
        fmt = "%d.%m.%Y %H:%M"
    meta = {"channel": ("Channel", "07"), "cell": ("Cell", "Form-CH01.csv"), "barcode": ("Serial Number", rng.choice(["", "SN12"])), "description": ("Description", "some text..."), "protocol": ("Protocol", "XC_Formation.pro1"),
            "mass": ("Mass (g)", "1.000"), "nominal_capacity": ("Capacity (Ah)", "0.24"), "area": ("Area (cm2)", "1.5"), "offset_voltage_dc": ("DC Offset Voltage (V)", "0.00000"), "software_version": ("Version", "2.2.1.6")}
    if rng.random() < 0.3:
        meta.pop("area")
    quoted = rng.random() < 0.5
    def q(x):
        return '"%s"' % x if quoted else x
    lines = ["[Summary]", "Novonix HPC data file", "Novonix"] + ["%s: %s" % v for v in meta.values()] + ["[End Summary]", "[Protocol]", "Protocol: other.pro1", "[0: Open_circuit_storage:]", "   [Save data when \u0394t > 1 seconds]"]
    lines += ["   [StepLimits 0 60]"] * rng.randint(0, 100) + ["[End Protocol]", "[Data]"]
    order = list(NCOL)
    if rng.random() < 0.3:
        rest = order[1:]
        rng.shuffle(rest)
        order = order[:1] + rest
    if bad == "header":
        lines += ["x"] * 600
    lines.append(q(",".join(order)))
    for r in rows:
        f = {"Date and Time": r["t"].strftime(fmt), "Cycle Number": r["cyc"], "Step Type": r["kind"], "Run Time (h)": r["run"], "Step Time (h)": r["st"], "Current (A)": r["cur"], "Potential (V)": r["v"], "Capacity (Ah)": r["cap"],
             NCOL[8]: r["T"], NCOL[9]: r["cT"], "Energy (Wh)": r["en"], "dVdt (I/h)": 0.5, "dIdt (V/h)": 0.25, "Step Number": r["step"], "Step position": r["pos"]}
        lines.append(q(",".join(str(f[c]) for c in order)))
    d = H.tmpdir()
    path = os.path.join(d, "Nova_CH01.csv")
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    sp = rng.choice([None, "missing.csv", "summary.csv"])
    if sp:
        sp = os.path.join(d, sp)
    ext = {"Cycle": [1, 2, 3], "Cap (Ah)": [0.1, 0.25, 0.3]}
    if sp and sp.endswith("summary.csv"):
        pd.DataFrame(ext).to_csv(sp)
    r = H.run(H.mod(NV).NovonixDatapath.from_file, path, sp)
    if bad in ("step", "date"):
        H.ensure("unknown step types and dates refused", not r.ok and isinstance(r.exc, ValueError), (bad, r))
        return
    if bad == "header":
        H.ensure("file without header refused", not r.ok, r)
        return
    H.ensure("no error", r.ok, r)
    df = r.value.raw_data
    for c, k in [("cycle_index", "cyc"), ("step_index", "kind"), ("test_time", "run"), ("step_time", "st"), ("current", "cur"), ("voltage", "v"), ("capacity", "cap"), ("energy", "en"), ("temperature", "T"), ("circuit_temperature", "cT"), ("step_num", "step")]:
        column(H, "recorded %s" % c, df[c], [x[k] for x in rows])
    column(H, "timestamps", df["date_time_iso"], [x["t"].isoformat() for x in rows])
    column(H, "step names", df["step_type_name"], [NSTEPS[x["kind"]] for x in rows])
    column(H, "step types", df["step_type"], ["charge" if x["kind"] in CHG else "discharge" for x in rows])
    for qn, k in (("capacity", "cap"), ("energy", "en")):
        chg, dis = [], []
        for x in rows:
            mine = [y for y in rows if y["cyc"] == x["cyc"]]
            if x["kind"] in CHG:
                chg.append(x[k])
                dis.append(float("nan"))
                continue
            chg.append(float("nan"))
            up = [y[k] for y in mine if y["kind"] in CHG] or [y[k] for y in mine]
            dis.append(x[k] if x["kind"] == 0 else max(up) - x[k])
        column(H, "charge %s of the charge steps" % qn, df["charge_" + qn], chg)
        column(H, "discharge %s counts down from the cycle's largest charge" % qn, df["discharge_" + qn], dis)
    m = r.value.metadata.raw
    for k in ("channel", "cell", "barcode", "description", "protocol", "mass", "nominal_capacity", "area", "offset_voltage_dc", "software_version"):
        H.ensure("metadata of the summary section", m.get(k) == (meta[k][1] or None if k in meta else None), (k, m.get(k)))
    if sp and sp.endswith("summary.csv"):
        H.ensure("external summary", r.value.external_summary == ext and r.value.paths["summary"] == sp, r.value.external_summary)
    else:
        H.ensure("no external summary", r.value.external_summary is None and r.value.paths["summary"] is None)
    H.ensure("schema", os.path.basename(r.value.schema) == "schema-novonix.yaml" and r.value.paths["raw"] == path)


# ---------------------------------------------------------------- Neware
NW = S + "neware"


@harness("C18", "neware_step_time", proof=False, conc=200, targets=[NW])
def h_step_time(H):
    rng = H.rng
    h, m, s = rng.choice([0, 1, 23, 24, 100, 2000]), rng.randint(0, 59), round(rng.uniform(0, 59.999), 3)
    x = "%s%d:%02d:%06.3f" % (rng.choice(["", "\t"]), h, m, s)
    H._log("x", x)
    r = H.run(H.mod(NW).NewareDatapath.step_time, x)
    H.ensure("seconds", r.ok and abs(r.value - (h * 3600 + m * 60 + s)) < 1e-6, r)


@harness("C18", "neware_file", proof=False, conc=40, targets=[NW])
def h_neware(H):
    rng = H.rng
    names = ["Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(C)", "Capacity(mAh)", "Capacity Density(mAh/g)", "Energy(mWh)", "CmpEng(mWh/g)", "Realtime", "Min-T(C)", "Max-T(C)", "Avg-T(C)", "Power(mW)",
             "Capacitance_Chg(mAh)", "Capacitance_DChg(mAh)", "Engy_Chg(mWh)", "Engy_DChg(mWh)", "dQ/dV(mAh/V)", "dQm/dV(mAh/V.g)"]
    rec_header = ["", ""] + names + ["", ""]           # position 22 is filled with the resistance of the step
    step_header = ["", "Step ID", "Step Name", "Step Time(h:min:s.ms)", "DCIR(O)", "x"] if rng.random() < 0.5 else ["", "Step ID", "DCIR(O)", "Step Name"]
    iri = step_header.index("DCIR(O)")
    def qj(xs):
        return ",".join('"%s"' % x if x else "" for x in xs)
    lines = [qj(["Cycle ID", "Cap_Chg(mAh)", "x"]), qj(step_header), qj(rec_header)]
    rows, k = [], 0
    t = datetime(2019, rng.randint(1, 12), rng.randint(1, 28), 23, 50, 0)
    step = 0
    c0 = rng.choice([1, 5])
    for c in range(c0, c0 + rng.randint(1, 3)):
        lines.append('%d,"1.0","y"' % c)
        for _ in range(rng.randint(1, 3)):
            step += 1
            ir = rng.choice([None, round(rng.uniform(0, 1), 4)])
            sh = ["", str(step)] + ["z"] * (len(step_header) - 2)
            sh[iri] = "\t-" if ir is None else "\t%s" % ir if rng.random() < 0.3 else str(ir)
            lines.append(qj(sh))
            st = 0.0
            for i in range(rng.randint(1, 4)):
                k += 1
                r = {n: round(rng.uniform(0, 100), 4) for n in names}
                r.update({"Record ID": k, "cyc": c, "step": step, "ir": ir, "when": t, "st": st, "Current(mA)": round(rng.uniform(-5000, 5000), 3)})
                h, rem = divmod(st, 3600)
                r["Time(h:min:s.ms)"] = "%d:%02d:%06.3f" % (h, rem // 60, rem % 60)
                r["Realtime"] = rng.choice(["", "\t"]) + t.strftime("%m/%d/%Y %H:%M:%S")
                rows.append(r)
                lines.append(",," + ",".join(str(r[n]) if n not in ("Time(h:min:s.ms)", "Realtime") else '"%s"' % r[n] for n in names) + ",,")
                dt = rng.choice([1, 10.5, 3661])
                st += dt
                t += timedelta(seconds=int(dt))
    d = H.tmpdir()
    path = os.path.join(d, "x_neware.csv")
    with open(path, "w", encoding="ISO-8859-1") as f:
        f.write("\n".join(lines) + "\n")
    if all(x["ir"] is None for x in rows):
        rows = [dict(x, ir=float("nan")) for x in rows]
    old = os.getcwd()
    os.chdir(d)
    try:
        r = H.run(H.mod(NW).NewareDatapath.from_file, path)
    finally:
        os.chdir(old)
    H.ensure("no error", r.ok, r)
    df = r.value.raw_data
    for c, n, f in [("data_point", "Record ID", 1), ("cycle_index", "cyc", 1), ("step_index", "step", 1), ("voltage", "Voltage(V)", 1), ("current", "Current(mA)", 1e-3), ("temperature", "Temperature(C)", 1),
                    ("charge_capacity", "Capacitance_Chg(mAh)", 1e-3), ("discharge_capacity", "Capacitance_DChg(mAh)", 1e-3), ("charge_energy", "Engy_Chg(mWh)", 1e-3), ("discharge_energy", "Engy_DChg(mWh)", 1e-3), ("step_time", "st", 1)]:
        column(H, "recorded %s" % c, df[c], [x[n] * f for x in rows])
    column(H, "UTC timestamps", df["date_time_iso"], [pacific_to_utc(x["when"]).strftime("%Y-%m-%dT%H:%M:%S+00:00") for x in rows])
    tt = list(df["test_time"])
    H.ensure("test time starts at zero and never decreases", tt[0] == 0 and all(b >= a for a, b in zip(tt, tt[1:])), tt)
    for i in range(1, len(rows)):
        if rows[i]["step"] == rows[i - 1]["step"]:
            H.ensure("test time advances with the step time", abs((tt[i] - tt[i - 1]) - (rows[i]["st"] - rows[i - 1]["st"])) < 1e-2, i)
    # resistance: that of the step; steps without one take the previous (or else the next) value
    want, last = [], None
    for x in rows:
        last = x["ir"] if x["ir"] is not None and x["ir"] == x["ir"] else last
        want.append(last)
    first = next((w for w in want if w is not None), float("nan"))
    column(H, "resistance of the step", df["internal_resistance"], [first if w is None else w for w in want])
    H.ensure("raw path", r.value.paths["raw"] == path and os.listdir(d) == ["x_neware.csv"], os.listdir(d))


# ---------------------------------------------------------------- Indigo
IN = S + "indigo"


@harness("C18", "indigo_file", proof=False, conc=40, targets=[IN])
def h_indigo(H):
    import h5py
    import numpy as np
    rng = H.rng
    n = rng.choice([1, 3, 12])
    cells = rng.choice([1, 1, 1, 2]) if n > 1 else 1
    cell = rng.randint(1, 10 ** 6)
    half, rows = rng.randint(0, 3), []
    us = 1500000000000000 + rng.randint(0, 10 ** 14)
    for i in range(n):
        rows.append({"cell_voltage_v": rng.uniform(2, 4), "cell_current_a": rng.uniform(0.1, 2) * rng.choice([1, -1]), "cell_coulomb_count_c": rng.uniform(-9000, 9000), "cell_energy_j": rng.uniform(-30000, 30000), "cell_temperature_c": rng.uniform(20, 40),
                     "time_s": 1.5 * i, "cell_id": cell, "cycle_count": half // 2, "half_cycle_count": half, "system_time_us": us, "experiment_count": 0, "flag": 1})
        half += rng.choice([0, 0, 1])
        us += rng.choice([1000000, 250000])
    if cells == 2:
        rows[-1]["cell_id"] += 1
    if rng.random() < 0.3:
        rng.shuffle(rows)
    names = list(rows[0])
    rng.shuffle(names)
    i, j = sorted(rng.sample(range(1, len(names)), 2))
    blocks = [names[:i], names[i:j], names[j:]]
    path = os.path.join(H.tmpdir(), "x_indigo.h5")
    with h5py.File(path, "w") as f:
        g = f.create_group("time_series_data")
        off = rng.choice([0, 100])
        g.create_dataset("axis0", data=np.array(sorted(names), dtype="S"))
        g.create_dataset("axis1", data=np.arange(off, off + n))
        for b, ns in enumerate(blocks):
            g.create_dataset("block%d_items" % b, data=np.array(ns, dtype="S"))
            g.create_dataset("block%d_values" % b, data=np.array([[r[x] for x in ns] for r in rows], dtype="f8" if any(isinstance(rows[0][x], float) for x in ns) else "i8"))
    r = H.run(H.mod(IN).IndigoDatapath.from_file, path)
    if cells == 2:
        H.ensure("several cells refused", not r.ok and isinstance(r.exc, ValueError), r)
        return
    H.ensure("no error", r.ok, r)
    df = r.value.raw_data
    column(H, "records numbered", df["data_point"], list(range(n)))
    for c, k in [("voltage", "cell_voltage_v"), ("current", "cell_current_a"), ("temperature", "cell_temperature_c"), ("cycle_index", "cycle_count"), ("step_index", "half_cycle_count")]:
        column(H, "recorded %s" % c, df[c], [x[k] for x in rows])
    for q, k in (("capacity", "cell_coulomb_count_c"), ("energy", "cell_energy_j")):
        column(H, "charge %s in odd half cycles" % q, df["charge_" + q], [abs(x[k]) / 3600 if x["half_cycle_count"] % 2 else 0.0 for x in rows])
        column(H, "discharge %s in even half cycles" % q, df["discharge_" + q], [0.0 if x["half_cycle_count"] % 2 else abs(x[k]) / 3600 for x in rows])
    def iso(u):
        return (datetime(1970, 1, 1) + timedelta(microseconds=u)).isoformat() + "+00:00"
    column(H, "UTC timestamps", df["date_time_iso"], [iso(x["system_time_us"]) for x in rows])
    m = r.value.metadata.raw
    H.ensure("metadata", m["indigo_cell_id"] == cell and m["filename"] == path and m["start_datetime"] == iso(min(x["system_time_us"] for x in rows)), m)


# ---------------------------------------------------------------- BioLogic
BL = S + "biologic"


@harness("C18", "biologic_file", proof=False, conc=60, targets=[BL])
def h_biologic(H):
    rng = H.rng
    ext = rng.choice([".csv", ".csv", ".txt"])
    sep, enc = (";", "utf-8") if ext == ".csv" else ("\t", "iso-8859-1")
    has_ci = rng.random() < 0.6
    cols = ["mode", "time/s", "Ecell/V", "I/mA", "cycle number", "T/\u00b0C", "Q charge/mA.h", "Q discharge/mA.h", "Energy charge/W.h", "Energy discharge/W.h", "Ns", "Loop"] + (["cycle_index"] if has_ci else [])
    if rng.random() < 0.7:
        rng.shuffle(cols)
    if cols[-1] == "time/s":
        cols[0], cols[-1] = cols[-1], cols[0]
    n = rng.randint(1, 8)
    t = datetime(2021, rng.choice([3, 5, 11]), rng.randint(1, 28), rng.randint(0, 23), 36, 22, 757000)
    if rng.random() < 0.4:          # the hours around the changes of daylight saving time
        t = rng.choice([datetime(2021, 3, 14, 1, 30), datetime(2021, 3, 14, 2, 15), datetime(2021, 11, 7, 1, 20), datetime(2021, 11, 7, 0, 59, 59)]) + timedelta(milliseconds=rng.choice([0, 757]))
    rows, c = [], 0
    for i in range(n):
        rows.append({"mode": "1", "time/s": t, "Ecell/V": rng.uniform(2, 4.3), "I/mA": rng.uniform(-5000, 5000), "cycle number": c, "T/\u00b0C": "", "Q charge/mA.h": rng.uniform(0, 5000), "Q discharge/mA.h": rng.uniform(0, 5000),
                     "Energy charge/W.h": rng.uniform(0, 20), "Energy discharge/W.h": rng.uniform(0, 20), "Ns": rng.randint(0, 30), "Loop": 0, "cycle_index": c + 1})
        t += timedelta(milliseconds=rng.choice([1, 500, 22756, 90000000]))
        c += rng.choice([0, 0, 1])
    d = H.tmpdir()
    path = os.path.join(d, "run_MB_CE1" + ext)
    letter, num, sn = rng.choice("ABCEH"), rng.randint(1, 16), rng.randint(0, 999)
    comment = rng.choice(["", "barcode 17", "000128"])
    proto = [["Ns                  0                   1", "ctrl_type           Rest                CC", "ctrl1_val           %s" % rng.choice(["", "1.5"])], ["Ns                  0", "ctrl_type           CC"]]
    which = rng.randint(0, 1)
    head = ["BT-Lab LOG FILE", "", "Modulo Bat", "", "Run on channel : %s%d (SN %04d)" % (letter, num, sn), "User : ", "Acquisition started on : 05/05/2021 15:36:22", "Electrolyte : ", "Comments : " + comment, "Text export",
            "   Variables : mode;ox;time/s;Ecell/V;I/mA", "Cycle Definition : Charge/Discharge alternance"] + proto[which] + [""]
    bad = rng.choice([None, None, None, None, "header", "extension"])
    pre = head if ext == ".txt" else ["x"] * rng.choice([0, 0, 3, 90])
    if bad == "header":
        pre = pre + ["x"] * 250
    if bad == "extension":
        path = path[:-4] + ".dat"
    with open(path, "w", encoding=enc, newline="") as f:
        for ln in pre:
            f.write(ln + "\r\n")
        f.write(sep.join(cols) + "\r\n")
        for r in rows:
            f.write(sep.join((x["time/s"].strftime("%m/%d/%Y %H:%M:%S.%f")[:-3] if k == "time/s" else repr(float(x[k])) if k in ("cycle number", "cycle_index") and rng.random() < 0.5 else str(x[k])) for x in [r] for k in cols) + "\r\n")
    if ext == ".csv":
        with open(path.replace(".csv", ".mpl"), "w", encoding="iso-8859-1", newline="") as f:
            f.write("\r\n".join(head) + "\r\n")
    f = H.mod(BL).BiologicDatapath.from_file
    r = H.run(f, path)
    if bad:
        H.ensure("unreadable file refused", not r.ok and isinstance(r.exc, LookupError if bad == "header" else TypeError), r)
        return
    H.ensure("no error", r.ok, r)
    df = r.value.raw_data
    for cn, k, s in [("voltage", "Ecell/V", 1), ("current", "I/mA", 1e-3), ("charge_capacity", "Q charge/mA.h", 1e-3), ("discharge_capacity", "Q discharge/mA.h", 1e-3), ("charge_energy", "Energy charge/W.h", 1), ("discharge_energy", "Energy discharge/W.h", 1), ("step_index", "Ns", 1),
                     ("cycle_index", "cycle_index" if has_ci else "cycle number", 1)]:
        column(H, "recorded %s" % cn, df[cn], [x[k] * s for x in rows])
    column(H, "records numbered", df["data_point"], list(range(1, n + 1)))
    column(H, "seconds since the first record", df["test_time"], [(x["time/s"] - rows[0]["time/s"]).total_seconds() for x in rows], 1e-9)
    column(H, "UTC timestamps", [datetime.fromisoformat(x).replace(tzinfo=None).isoformat() + x[-6:] for x in df["date_time_iso"]], [pacific_to_utc(x["time/s"]).isoformat() + "+00:00" for x in rows])
    m = r.value.metadata
    H.ensure("channel", m.channel_id == int("%d%d" % (ord(letter) - ord("A") + 1, num)), (letter, num, m.channel_id))
    H.ensure("barcode", m.barcode == comment, m.barcode)
    H.ensure("protocol digest", isinstance(m.protocol, str) and len(m.protocol) == 32, m.protocol)
    if ext == ".csv":
        # the digest tells protocols apart, and only protocols
        p = os.path.join(d, "other.mpl")
        for change in (False, True):
            other = [h.replace("User : ", "User : someone").replace("%s%d (SN" % (letter, num), "A1 (SN") if h not in proto[which] else h for h in head]
            if change:
                k = other.index(proto[which][-1])
                other[k] = other[k] + "2"
            with open(p, "w", newline="") as g:
                g.write("\r\n".join(other) + "\r\n")
            q = H.run(H.mod(BL).BiologicDatapath.parse_metadata, p)
            H.ensure("digest of the protocol text", q.ok and (q.value["protocol"] != m.protocol) == change, (change, q))
    H.ensure("paths", r.value.paths["raw"] == path and r.value.paths["metadata"] == path.replace(".csv", ".mpl"))
