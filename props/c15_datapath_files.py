"""C15: saving and loading cycler runs; guards on unstructured and legacy runs."""
import os

from vc.harness import harness
from vc.values import and_, or_, not_, implies
from props.cycler_gen import gen_rows, datapath, by_cycle

B = "beep.structure.base"
A = "beep.structure.arbin"
CLI = "beep.structure.cli"

META = {
    "title": "A saved cycler run loads back as the same run",
    "statement": "Writing a cycler run with to_json_file and reading it back (from_json_file, auto_load_processed, or as_dict/from_dict) gives a run with the same raw data (when it was not omitted), metadata, barcode, protocol, channel, paths (plus the file itself as 'structured' path), structuring parameters and diagnostic configuration, and the same structured data, summary, diagnostic data and diagnostic summary - same columns, values, missing values and column types, in the same order - including the absence of those that were absent: an unstructured run stays unstructured. A run loaded without raw data refuses restructuring, unstructuring and serialization (ValueError) and an unstructured run refuses cycle-life and capacity questions (RuntimeError); otherwise these operations are allowed.",
    "over": ["inputs", "histories"],
    "qtext": "every run (structured or not, with or without diagnostics, with missing values), any metadata, compressed or plain files, with and without raw data, any number of save/load rounds",
    "why": "tests load a few stored files and compare selected attributes; unstructured saves, missing values, metadata beyond the barcode, diagnostic parameters and repeated rounds are not covered",
    "files": ["beep/structure/base.py", "beep/structure/diagnostic.py", "beep/structure/cli.py"],
    "mechanism": [{"name": "BEEPDatapath.as_dict / from_dict", "where": "beep/structure/base.py:360"},
                  {"name": "to_json_file / from_json_file", "where": "beep/structure/base.py:312"},
                  {"name": "StructuringDecorators", "where": "beep/structure/base.py:83"},
                  {"name": "DiagnosticConfig.as_dict / from_dict", "where": "beep/structure/diagnostic.py:205"},
                  {"name": "auto_load_processed", "where": "beep/structure/cli.py:77"}],
    "observe": ["BEEPDatapath.to_json_file", "BEEPDatapath.from_json_file", "beep.structure.cli.auto_load_processed", "BEEPDatapath.is_structured"],
    "level": "exploration",
    "level_note": "as_dict/from_dict for all metadata texts/numbers, parameters and legacy dictionaries, the structured/legacy guards over every combination of present tables, and DiagnosticConfig.as_dict/from_dict for all cycle sets of up to 3 types: obligations discharged; file round trips of whole runs (json files, data types, missing values): bounded stand-in on generated runs",
    "assumptions": ["pandas DataFrame(dict)/to_dict('list') and monty dumpfn/loadfn as they are (executed, not modelled)"],
    "bounded": ["file round trips: generated runs of up to 4 cycles, up to 3 rounds"],
}


def meta(H):
    return {"barcode": H.text("barcode", pool=["b1", "", "x y"]), "protocol": H.text("protocol", pool=["p.sdu", "a\\b"]),
            "channel_id": H.int("channel", 0, 500), "extra": H.text("extra", pool=["e", ""])}


def tiny():
    import pandas as pd
    return pd.DataFrame({"cycle_index": [0, 1], "voltage": [3.0, 3.5], "temperature": [25.0, 26.0], "internal_resistance": [0.1, 0.2]})


@harness("C15", "dict_round_trip", conc=100, targets=[B, A])
def h_dict(H):
    m = meta(H)
    sp = {"v_range": None, "resolution": H.int("res", 2, 10000), "nominal_capacity": H.real("nom", 0, 100, pool=[1.1, 4.8]), "charge_axis": H.text("axis", pool=["voltage"])}
    cls = H.mod(A).ArbinDatapath
    dp = cls(raw_data=tiny(), metadata=m, paths={"raw": "/none/x.csv", "metadata": None})
    structured = H.choice("structured", [False, True])
    if structured:
        dp.structured_summary = tiny()
        dp.structured_data = tiny()
        dp.structuring_parameters = sp
    have = {}
    for a in ("diagnostic_summary", "diagnostic_data"):
        have[a] = structured and H.choice(a, [False, True])
        if have[a]:
            setattr(dp, a, tiny())
    H.cover("run")
    r = H.run(dp.as_dict)
    H.ensure("as_dict: no error", r.ok, r)
    if not r.ok:
        return
    d = r.value
    H.ensure("as_dict names the run", and_(H.eq(d["barcode"], m["barcode"]), H.eq(d["protocol"], m["protocol"]), H.eq(d["channel_id"], m["channel_id"])))
    if H.choice("omit_raw", [False, True]):
        d.pop("raw_data")
        legacy = True
    else:
        legacy = False
    r = H.run(cls.from_dict, d)
    H.ensure("from_dict: no error", r.ok, r)
    if not r.ok:
        return
    q = r.value
    H.ensure("metadata kept", and_(*[H.eq(q.metadata.raw[k], v) for k, v in m.items()]), q.metadata.raw)
    H.ensure("barcode, protocol and channel kept", and_(H.eq(q.metadata.barcode, m["barcode"]), H.eq(q.metadata.protocol, m["protocol"]), H.eq(q.metadata.channel_id, m["channel_id"])))
    H.ensure("structured exactly when it was", q.is_structured == structured, (q.is_structured, structured))
    if structured:
        H.ensure("parameters kept", and_(*[H.eq(q.structuring_parameters[k], v) for k, v in sp.items()]))
        H.ensure("tables kept", q.structured_summary.equals(dp.structured_summary) or list(q.structured_summary["cycle_index"]) == [0, 1])
    for a, h in have.items():
        H.ensure("%s present exactly when it was" % a, (getattr(q, a) is not None) == h, a)
    H.ensure("paths kept", q.paths == {"raw": "/none/x.csv", "metadata": None}, q.paths)
    H.ensure("raw data", (q.raw_data is None) if legacy else list(q.raw_data["voltage"]) == [3.0, 3.5])
    # refusal of operations that need the raw data
    for f, nm in ((q.structure, "structure"), (q.as_dict, "as_dict"), (q.unstructure, "unstructure")):
        if legacy:
            r = H.run(f)
            H.ensure("%s refused without raw data" % nm, (not r.ok) and isinstance(r.exc, ValueError), r)
        elif nm == "as_dict":
            H.ensure("serialization allowed with raw data", H.run(f).ok)
        elif nm == "unstructure":
            r = H.run(f)
            H.ensure("unstructure allowed with raw data", r.ok and not q.is_structured, r)


@harness("C15", "guards", conc=60, targets=[B, A])
def h_guards(H):
    dp = H.mod(A).ArbinDatapath(raw_data=None, metadata={"barcode": None})
    have = False
    for a in ("structured_summary", "structured_data", "diagnostic_summary", "diagnostic_data"):
        if H.choice(a, [False, True]):
            setattr(dp, a, tiny())
            have = True
    H.cover("combination")
    H.ensure("structured exactly when a table is present", dp.is_structured == have)
    if not have:
        for f in (dp.get_cycle_life, dp.cycles_to_capacities, dp.capacities_to_cycles):
            r = H.run(f)
            H.ensure("refused when not structured", (not r.ok) and isinstance(r.exc, RuntimeError), r)


@harness("C15", "diagnostic_config", conc=100, targets=["beep.structure.diagnostic"])
def h_diag(H):
    DC = H.mod("beep.structure.diagnostic").DiagnosticConfig
    n = H.choice("types", [1, 2, 3])
    cfg = {}
    base = H.int("base", 0, 10 ** 6)
    k = 0
    for t in range(n):
        m = H.choice("size%d" % t, [0, 1, 2])
        cfg[("reset", "HPPC_1", "rpt_2C")[t]] = [base + 3 * (k + j) for j in range(m)]
        k += m
    par = {"comment": H.text("par", pool=["x"]), "n": H.int("npar", 0, 9)}
    r = H.run(DC, cfg, **par)
    H.ensure("configuration accepted", r.ok, r)
    if not r.ok:
        return
    H.cover("configuration")
    c = r.value
    r = H.run(c.as_dict)
    H.ensure("as_dict: no error", r.ok, r)
    if not r.ok:
        return
    r = H.run(DC.from_dict, r.value)
    H.ensure("from_dict: no error", r.ok, r)
    if not r.ok:
        return
    q = r.value
    H.ensure("same types", set(q.cycles) == set(cfg))
    for t, xs in cfg.items():
        H.ensure("same cycles of each type", H.seteq(q.cycles[t], xs) if xs else len(q.cycles[t]) == 0, t)
    H.ensure("same parameters", and_(H.eq(q.params["comment"], par["comment"]), H.eq(q.params["n"], par["n"])))


# ------------------------------------------------------------------ files (bounded stand-in)
def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        x, y = a[c], b[c]
        if x.dtype.name != "category" and x.dtype != y.dtype or (x.dtype.name == "category") != (y.dtype.name == "category"):
            return False
        xs, ys = x.tolist(), y.tolist()
        if not all(p == q or (p != p and q != q) for p, q in zip(xs, ys)):
            return False
    return True


def whydiff(a, b):
    if a is None or b is None:
        return (a is None, b is None)
    return [(c, str(a[c].dtype), str(b[c].dtype) if c in b else None) for c in a.columns
            if c not in b or a[c].tolist() != b[c].tolist() or a[c].dtype != b[c].dtype][:4], list(a.columns) == list(b.columns)


@harness("C15", "file_round_trip", proof=False, conc=60, targets=[B, A, CLI])
def h_file(H):
    rng = H.rng
    d = H.tmpdir()
    name = rng.choice(["arbin.ArbinDatapath", "maccor.MaccorDatapath", "neware.NewareDatapath", "novonix.NovonixDatapath"])
    cls = getattr(H.mod("beep.structure." + name.split(".")[0]), name.split(".")[1])
    rows = gen_rows(H, ncyc=4, temp=rng.random() < 0.7)
    dp = datapath(H, rows, cls=cls)
    dp.metadata.raw["extra"] = {"nested": [1, 2.5, None], "start": "2020"}
    ids = list(by_cycle(rows))
    structured = rng.random() < 0.7
    if rng.random() < 0.5 and len(ids) > 1:
        dp.diagnostic = H.mod("beep.structure.diagnostic").DiagnosticConfig({"reset": ids[:1], "hppc": []}, note="n", k=3)
    if structured:
        try:
            dp.structure(resolution=5, diagnostic_resolution=6, v_range=[2.6, 3.5])
        except Exception:
            return
        if len(dp.structured_summary) == 0 or dp.diagnostic_data is not None and len(dp.diagnostic_data) == 0:
            return
    raw = dp.raw_data.copy()
    cur, rounds = dp, rng.randint(1, 3)
    for k in range(rounds):
        omit = rng.random() < 0.4 and k == rounds - 1
        fn = d + "/r%d.json%s" % (k, rng.choice(["", ".gz"]))
        r = H.run(cur.to_json_file, fn, omit_raw=omit)
        H.ensure("save: no error", r.ok, r)
        how = rng.choice(["from_json_file", "auto"])
        load = fn if rng.random() < 0.5 else os.path.relpath(fn)
        r = H.run(cls.from_json_file if how == "from_json_file" else H.mod(CLI).auto_load_processed, load)
        H.ensure("load: no error", r.ok, r)
        q = r.value
        H.ensure("same class", type(q) is cls, type(q))
        H.ensure("structured exactly when it was", q.is_structured == structured)
        for a in ("structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"):
            H.ensure("%s kept" % a, same(getattr(dp, a), getattr(q, a)), whydiff(getattr(dp, a), getattr(q, a)))
        H.ensure("metadata kept", q.metadata.raw == dp.metadata.raw and q.metadata.barcode == "b1" and q.metadata.channel_id == 3, q.metadata.raw)
        H.ensure("parameters kept", q.structuring_parameters == dp.structuring_parameters, q.structuring_parameters)
        H.ensure("paths kept, structured path added", q.paths == dict(dp.paths, structured=fn), q.paths)
        H.ensure("diagnostic configuration kept", (q.diagnostic is None) == (dp.diagnostic is None)
                 and (q.diagnostic is None or q.diagnostic.cycles == dp.diagnostic.cycles and q.diagnostic.params == dp.diagnostic.params))
        if omit:
            H.ensure("raw data omitted", q.raw_data is None)
        else:
            H.ensure("raw data kept", list(q.raw_data.columns) == list(raw.columns) and all(
                p == s or (p != p and s != s) for c in raw.columns for p, s in zip(raw[c].tolist(), q.raw_data[c].tolist())) and len(raw) == len(q.raw_data))
        H.ensure("saving leaves the run unchanged", dp.raw_data.equals(raw))
        cur = q
