"""C20: command line runs process every file, isolate failures and report exactly what happened."""
import contextlib
import hashlib
import json
import os
import sys
import tempfile
import types

from vc.harness import harness
from vc.values import Sym

C = "beep.cmd"
FB = "beep.features.base"

META = {
    "title": "Command line runs isolate failures and report exactly what happened",
    "statement": "beep structure handles every input file: whatever file fails, the others are processed, and the status json has one entry per file saying truthfully whether it was validated and structured, with the traceback of a failure (and none otherwise), the validation schema and structuring parameters of the run, the path and MD5 sum of the output that exists there (no path if nothing was written) and the MD5 sum of the raw file. Output goes to the name given for that file, or auto-named to --output-dir or the working directory; the structuring options reach the run as given, --automatic uses automatic structuring, --validation-only writes nothing, --no-raw omits the raw data, local files precede S3 objects. beep featurize applies every requested featurizer, with its default hyperparameters updated by those given, to every file that can be loaded; the feature matrix holds exactly the featurizers reported as successful and lies where the status says; all_features and all_targets stand for the documented featurizers. beep train and beep predict pass their options to the model and report created outputs, errors and tracebacks truthfully, as does beep protocol. run id and tags are recorded. With --halt-on-error the first failure ends the command with that error; missing input files, a wrong number of output names, unknown or malformed featurizers and interrupts end the command with an error.",
    "over": ["inputs", "histories"],
    "qtext": "every sequence of files, featurizers and outcomes (read, validation, processing or write failure of any of them) and every option value",
    "why": "the tests of the command line need network or large files and only look at successful runs; failures of some files among others and the truth of the report are never checked",
    "files": ["beep/cmd.py"],
    "mechanism": [{"name": "structure", "where": "beep/cmd.py:370"}, {"name": "featurize", "where": "beep/cmd.py:710"}, {"name": "train", "where": "beep/cmd.py:1160"},
                  {"name": "predict", "where": "beep/cmd.py:1400"}, {"name": "protocol", "where": "beep/cmd.py:1550"}],
    "observe": ["status json of each command", "output files", "exit code"],
    "level": "proof",
    "level_note": "the command functions are run against the contracts of their callees (a datapath, featurizer or model that succeeds or fails at any step): obligations discharged for every combination of outcomes of up to 3 files and 2 featurizers and for all option values; end-to-end invocation through the argument parser: bounded stand-in",
    "assumptions": ["callees either complete or raise (their own behaviour is the subject of the other properties)", "click maps option text to the parameter of that option", "monty dumpfn writes what json reads back"],
    "bounded": ["up to 3 files and 2 featurizers per command", "input files of equal base name (their auto-named outputs coincide) are not judged"],
}


ORIGIN = {"auto_load": "beep.structure.cli", "auto_load_processed": "beep.structure.cli", "list_s3_objects": "beep.utils.s3", "download_s3_object": "beep.utils.s3", "generate_protocol_files_from_csv": "beep.protocol.generate_protocol"}


@contextlib.contextmanager
def swapped(mod, **kw):
    """replace the callees by their contracts, in the command module and where they are defined"""
    import importlib
    none = object()
    places = [(mod, k, v) for k, v in kw.items()] + [(importlib.import_module(ORIGIN[k]), k, v) for k, v in kw.items() if k in ORIGIN]
    old = [(o, k, getattr(o, k, none)) for o, k, v in places]
    for o, k, v in places:
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in old:
            if v is none:
                delattr(o, k)
            else:
                setattr(o, k, v)


def invoke(H, name, obj, **kw):
    """call the command with the given options, defaults elsewhere"""
    import click
    m = H.mod(C)
    cmd = getattr(m, name)
    with click.Context(cmd, obj=obj) as ctx:
        args = {}
        for p in cmd.params:
            v = p.get_default(ctx)
            args[p.name] = () if v is None and (getattr(p, "multiple", False) or p.nargs == -1) else v
        for k in kw:
            assert k in args, k
        args.update(kw)
        return H.run(lambda: cmd.callback(**args))


def persister(H, d, **kw):
    m = H.mod(C)
    p = m.ContextPersister(cwd=d, run_id=kw.get("run_id"), tags=kw.get("tags", ()), output_status_json=os.path.join(d, "status.json"), halt_on_error=kw.get("halt", False))
    return p


def status(H, d):
    p = os.path.join(d, "status.json")
    if H.sym:
        v = H.vload(p)
        if v is not None:
            return v
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return json.load(f)


def md5(path):
    with open(path, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


class Boom(Exception):
    pass


class Datapath:
    """contract of a datapath as far as the command uses it: any step may fail"""
    def __init__(self, name, how, log):
        self.name, self.how, self.log = name, how, log
        self.schema = "schema-of-" + name
        self.structuring_parameters = {}

    def validate(self):
        self.log.append(("validate", self.name))
        if self.how == "validation breaks":
            raise Boom(self.name)
        return (False, "bad voltage in " + self.name) if self.how == "invalid" else (True, "")

    def structure(self, v_range=None, resolution=1000, diagnostic_resolution=500, nominal_capacity=1.1, full_fast_charge=0.8, charge_axis="charge_capacity", discharge_axis="voltage", exclude_cycles=None):
        self.log.append(("structure", self.name, v_range, resolution, diagnostic_resolution, nominal_capacity, full_fast_charge, charge_axis, discharge_axis, exclude_cycles))
        if self.how == "structuring breaks":
            raise Boom(self.name)
        if self.how == "interrupt":
            raise KeyboardInterrupt()
        self.structuring_parameters = {"of": self.name}

    def autostructure(self, charge_axis="charge_capacity", discharge_axis="voltage", parameters_path="default"):
        self.log.append(("autostructure", self.name, charge_axis, discharge_axis, parameters_path))
        if self.how == "structuring breaks":
            raise Boom(self.name)
        if self.how == "interrupt":
            raise KeyboardInterrupt()
        self.structuring_parameters = {"auto": self.name}

    def to_json_file(self, filename, omit_raw=True):
        self.log.append(("write", self.name, filename, omit_raw))
        if self.how == "writing breaks":
            raise OSError(self.name)
        with open(filename, "w") as f:
            f.write("%s %s" % (self.name, omit_raw))


HOW = ["ok", "unreadable", "invalid", "validation breaks", "structuring breaks", "writing breaks"]


def same(H, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = same(H, x, y)
            r = e if r is True else (r if e is True else (False if e is False or r is False else r & e))
        return r
    if isinstance(a, Sym) or isinstance(b, Sym):
        return H.eq(a, b)
    return a == b


def structure_files(H, names, hows, setting, halt=False):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        log = []
        work = os.path.join(d, "cwd")
        os.mkdir(work)
        os.mkdir(os.path.join(d, "out"))
        files = []
        for n in names:
            p = os.path.join(d, n)
            with open(p, "w") as f:
                f.write("raw " + n)
            files.append(p)

        def load(path, *a, **k):
            n = os.path.basename(path)
            log.append(("load", n))
            if hows[names.index(n)] == "unreadable":
                raise ValueError(n)
            return Datapath(n, hows[names.index(n)], log)
        kw = dict(setting)
        mode = kw.pop("output", "cwd")
        if mode == "dir":
            kw["output_dir"] = os.path.join(d, "out")
        elif mode == "names":
            kw["output_filenames"] = tuple(os.path.join(d, "out", "n%d.json" % i) for i in range(len(names)))
        if mode == "dir and names":
            kw["output_dir"] = os.path.join(d, "out")
            kw["output_filenames"] = tuple(os.path.join(d, "out", "n%d.json" % i) for i in range(len(names)))
        want = {}
        for i, n in enumerate(names):
            auto = os.path.splitext(n)[0] + "_structured.json.gz"
            want[n] = os.path.join(work, auto) if mode == "cwd" else os.path.join(d, "out", "n%d.json" % i) if mode == "names" else os.path.join(d, "out", auto)
        rid = H.int("run_id", 0, 10 ** 6)
        ob = persister(H, work, run_id=rid, tags=("a", "b"), halt=halt)
        m = H.mod(C)
        with swapped(m, auto_load=load):
            r = invoke(H, "structure", ob, files=tuple(files), **kw)
        st = status(H, work)
        written = sorted(os.path.join(w, f) for w in (work, os.path.join(d, "out")) for f in os.listdir(w) if f != "status.json")
        yield_ = (r, st, log, files, want, written, rid, kw)
        judge(H, *yield_, names=names, hows=hows, halt=halt)


def judge(H, r, st, log, files, want, written, rid, kw, names, hows, halt):
    valid_only = kw.get("validation_only", False)

    def fails(h):
        return h in ("unreadable", "invalid", "validation breaks") or h in ("structuring breaks", "writing breaks") and not valid_only
    if "interrupt" in hows and not valid_only:
        k = hows.index("interrupt")
        if not (halt and any(fails(h) for h in hows[:k])):
            H.ensure("an interrupt ends the command with an error", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            H.ensure("nothing processed after an interrupt", not any(e[1] in names[k + 1:] for e in log), log)
            return
    bad = [i for i, h in enumerate(hows) if fails(h)]
    if halt and bad:
        H.ensure("halt-on-error ends with the error", not r.ok and {"unreadable": "ValueError", "invalid": "BEEPValidationError", "writing breaks": "OSError"}.get(hows[bad[0]], "Boom") == type(r.exc).__name__, r)
        H.ensure("nothing processed after the first error", not any(e[1] in names[bad[0] + 1:] for e in log), log)
        return
    H.ensure("no error", r.ok, r)
    H.ensure("status written", st is not None)
    if not r.ok or st is None:
        return
    H.ensure("one entry per file", sorted(st["files"]) == sorted(files), sorted(st["files"]))
    H.ensure("operation", st["op_type"] == "structure")
    H.ensure("run id and tags", same(H, st["metadata"]["run_id"], rid), st["metadata"])
    H.ensure("run id and tags", list(st["metadata"]["tags"]) == ["a", "b"], st["metadata"])
    out = []
    for f, n, h in zip(files, names, hows):
        e = st["files"][f]
        valid = h not in ("unreadable", "invalid", "validation breaks")
        done = valid and not valid_only and h not in ("structuring breaks", "writing breaks")
        H.ensure("validated is true exactly if the file is valid", e["validated"] is valid, (n, h, e["validated"]))
        H.ensure("structured is true exactly if the output was written", e["structured"] is done, (n, h, e["structured"]))
        H.ensure("output path", e["output"] == (want[n] if done else None), (n, h, e["output"]))
        H.ensure("traceback exactly for failures", (e["traceback"] is not None) == fails(h), (n, h))
        if fails(h):
            H.ensure("traceback names the failure", n in "".join(e["traceback"]), (n, h))
        H.ensure("checksum of the raw file", e["raw_md5_chksum"] == md5(f), (n, h))
        H.ensure("checksum of the output", e["processed_md5_chksum"] == (md5(want[n]) if done else None), (n, h))
        H.ensure("schema", e["validation_schema"] == (None if h == "unreadable" else "schema-of-" + n), (n, h))
        H.ensure("structuring parameters", e["structuring_parameters"] == (({"auto": n} if kw.get("automatic") else {"of": n}) if done else None), (n, h))
        H.ensure("time taken", isinstance(e["walltime"], (int, float)) and e["walltime"] >= 0)
        if done:
            out.append(want[n])
            with open(want[n]) as fh:
                H.ensure("the output is that of the file", fh.read() == "%s %s" % (n, bool(kw.get("no_raw", False))), n)
        calls = [c for c in log if c[0] in ("structure", "autostructure") and c[1] == n]
        if valid and not valid_only:
            H.ensure("structured once", len(calls) == 1, calls)
            c = calls[0]
            if kw.get("automatic"):
                H.ensure("automatic structuring", c[0] == "autostructure" and c[2:] == (kw.get("charge_axis", "charge_capacity"), kw.get("discharge_axis", "voltage"), kw.get("protocol_parameters_dir")), c)
            else:
                H.ensure("manual structuring", c[0] == "structure", c)
                H.ensure("options reach the run", same(H, c[2:], (kw.get("v_range"), kw.get("resolution", 1000), 500, kw.get("nominal_capacity", 1.1), kw.get("full_fast_charge", 0.8), kw.get("charge_axis", "charge_capacity"), kw.get("discharge_axis", "voltage"), None)), c)
        else:
            H.ensure("not structured", not calls, calls)
    H.ensure("exactly the reported outputs exist", written == sorted(out), (written, out))


def setting(H, k):
    base = {"charge_axis": "voltage", "discharge_axis": "charge_capacity"}
    s = {0: {}, 1: dict(base, output="dir", v_range=(H.real("v0", 0, 5), H.real("v1", 0, 5)), resolution=H.int("res", 1, 5000), nominal_capacity=H.real("nom", 0, 10), full_fast_charge=H.real("ffc", 0, 1)),
         2: dict(output="names", no_raw=True), 3: dict(base, automatic=True, protocol_parameters_dir="/some/dir"), 4: dict(validation_only=True, output="dir"), 5: dict(output="dir and names")}
    return s[k]


@harness("C20", "structure_outcomes", conc=60, targets=[C], budget=250)
def h_struct(H):
    n = H.choice("files", [1, 2, 3])
    names = ["b.run.071", "a.csv", "c_structured.json"][:n]
    hows = [H.choice("file%d" % i, HOW if i < 2 else ["ok", "invalid"]) for i in range(n)]
    H.cover("run")
    structure_files(H, names, hows, setting(H, H.choice("setting", [0, 1, 4] if n == 2 else [0])))


@harness("C20", "structure_options", conc=40, targets=[C])
def h_options(H):
    names = ["b.run.071", "a.csv"]
    hows = [H.choice("file0", ["ok", "structuring breaks"]), "ok"]
    H.cover("run")
    structure_files(H, names, hows, setting(H, H.choice("setting", [0, 1, 2, 3, 4, 5])))


@harness("C20", "structure_halting", conc=40, targets=[C])
def h_halt(H):
    names = ["b.run.071", "a.csv", "c.csv"]
    halt = H.choice("halt", [True, False])
    hows = ["ok", H.choice("file1", HOW + ["interrupt"]), H.choice("file2", ["ok", "unreadable"])]
    H.cover("run")
    structure_files(H, names, hows, setting(H, H.choice("setting", [0, 3])), halt=halt)


@harness("C20", "structure_inputs", conc=40, targets=[C])
def h_inputs(H):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        why = H.choice("why", ["missing file", "too few names", "too many names", "s3", "s3 local", "s3 glob", "s3 nothing", "s3 cache"])
        log = []
        m = H.mod(C)
        for n in ("a.csv", "b.csv"):
            with open(os.path.join(d, n), "w") as f:
                f.write(n)

        def load(path, *a, **k):
            log.append(("load", os.path.relpath(path, d), open(path).read()))
            return Datapath(os.path.basename(path), "ok", [])
        ob = persister(H, d)
        sw = dict(auto_load=load)
        kw = {}
        files = (os.path.join(d, "a.csv"), os.path.join(d, "b.csv"))
        if why == "missing file":
            files = (os.path.join(d, "a.csv"), os.path.join(d, "zzz.csv"))
        elif why == "too few names":
            kw["output_filenames"] = (os.path.join(d, "x.json"),)
        elif why == "too many names":
            kw["output_filenames"] = tuple(os.path.join(d, "x%d.json" % i) for i in range(3))
        else:
            keys = ["runs/k1.csv", "runs/k2.csv", "other/k3.txt", os.path.join(d, "a.csv")]

            def fetch(bucket, key, dest):
                log.append(("fetch", bucket, key, os.path.relpath(dest, d)))
                with open(dest, "w") as f:
                    f.write("s3 " + key)
            sw.update(list_s3_objects=lambda b: [types.SimpleNamespace(key=k) for k in keys], download_s3_object=fetch, S3_CACHE=os.path.join(d, "cache"))
            kw["s3_bucket"] = "bucket"
            files = {"s3": ("runs/k2.csv", os.path.join(d, "b.csv")), "s3 local": (os.path.join(d, "a.csv"),), "s3 glob": ("runs/*.csv",), "s3 nothing": ("nope/*.csv",), "s3 cache": ("runs/k1.csv",)}[why]
            if why == "s3 cache":
                kw["s3_use_cache"] = True
        with swapped(m, **sw):
            r = invoke(H, "structure", ob, files=files, **kw)
        H.cover("run")
        read = sorted(e[1:] for e in log if e[0] == "load")
        if why in ("missing file", "too few names", "too many names", "s3 nothing"):
            H.ensure("refused", not r.ok, r)
            H.ensure("nothing processed", not log, log)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        want = {"s3": [("b.csv", "b.csv"), ("k2.csv", "s3 runs/k2.csv")], "s3 local": [("a.csv", "a.csv")], "s3 glob": [("k1.csv", "s3 runs/k1.csv"), ("k2.csv", "s3 runs/k2.csv")], "s3 cache": [("cache/k1.csv", "s3 runs/k1.csv")]}[why]
        H.ensure("exactly the selected files are read", read == want, read)
        H.ensure("objects come from the bucket", all(e[1] == "bucket" for e in log if e[0] == "fetch"))


# ---------------------------------------------------------------- featurize
def external(H):
    """a user's module with featurizers"""
    Base = H.mod(FB).BEEPFeaturizer
    mod = types.ModuleType("vc_external")

    def make(name, default):
        def validate(self):
            how = self.dp_how
            if how == "validation breaks":
                raise Boom(name)
            return (False, "not applicable " + name) if how == "invalid" else (True, None)

        def create_features(self):
            import pandas as pd
            if self.dp_how == "featurizing breaks":
                raise Boom(name)
            if self.dp_how == "interrupt":
                raise KeyboardInterrupt()
            self.features = pd.DataFrame({"val": [self.dp_value], "hp": [float(self.hyperparameters["a"])]})

        def init(self, structured_datapath, hyperparameters=None):
            self.hyperparameters = hyperparameters if hyperparameters is not None else dict(default)
            self.features = None
            if structured_datapath is not None:
                self.paths, self.metadata, self.linked_semiunique_id = {"structured": structured_datapath.path}, {}, structured_datapath.path
                self.dp_how = structured_datapath.hows.get(name, "ok")
                self.dp_value = structured_datapath.value
                if self.dp_how == "construction breaks":
                    raise Boom(name)
        return type(name, (Base,), {"DEFAULT_HYPERPARAMETERS": default, "validate": validate, "create_features": create_features, "__init__": init, "__module__": "vc_external"})
    mod.FzA = make("FzA", {"a": 1, "b": [1, 2]})
    mod.FzB = make("FzB", {"a": 7})
    mod.NotOne = type("NotOne", (), {"__module__": "vc_external"})
    sys.modules["vc_external"] = mod
    return mod


FHOW = ["ok", "construction breaks", "invalid", "validation breaks", "featurizing breaks"]


@harness("C20", "featurize_outcomes", conc=60, targets=[C], budget=250)
def h_feat(H):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        mod = external(H)
        os.mkdir(os.path.join(d, "out"))
        n = H.choice("files", [1, 2])
        names = ["p.json", "q.json"][:n]
        case = H.choice("case", ["plain", "halt", "intermediates", "named", "interrupt"]) if n == 2 else "plain"
        hows = {}
        for i, f in enumerate(names):
            h = H.choice("file%d" % i, ["ok", "unreadable"])
            if h == "ok":
                full = i == 0 and case in ("plain",)
                h = {"FzA": H.choice("a%d" % i, FHOW if full else ["ok", "featurizing breaks"] if case != "interrupt" or i else ["interrupt"]), "FzB": H.choice("b%d" % i, FHOW if full else ["ok", "invalid"])}
            hows[f] = h
        given = H.choice("given", [None, {"a": 5}])
        files = []
        for f in names:
            files.append(os.path.join(d, f))
            with open(files[-1], "w") as fh:
                fh.write("structured " + f)

        def load(path):
            f = os.path.basename(path)
            if hows[f] == "unreadable":
                raise ValueError(f)
            return types.SimpleNamespace(path=path, hows=hows[f], value=float(len(path) * 10 + ord(f[0])))
        kw = dict(featurize_with=("vc_external.FzA",) if given else ("vc_external.FzA", "vc_external.FzB"))
        if given:
            kw["featurize_with_hyperparams"] = (str({"vc_external.FzB": given}),)
        if case == "intermediates":
            kw.update(save_intermediates=True, output_dir=os.path.join(d, "out"))
        if case == "named":
            kw["output_filename"] = os.path.join(d, "out", "fm.json")
        ob = persister(H, d, run_id=3, tags=("x",), halt=case == "halt")
        m = H.mod(C)
        H.cover("run")
        with swapped(m, auto_load_processed=load):
            r = invoke(H, "featurize", ob, files=tuple(files), **kw)
        order = [(f, z) for f in names for z in (("FzA", "FzB"))]

        def how(f, z):
            return "unreadable" if hows[f] == "unreadable" else hows[f][z]
        stops = [(f, z) for f, z in order if how(f, z) != "ok"] if case == "halt" else [(f, z) for f, z in order if how(f, z) == "interrupt"]
        if stops:
            H.ensure("halt-on-error or an interrupt ends the command with an error", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        st = status(H, d)
        H.ensure("one entry per file", st is not None and sorted(st["files"]) == sorted(files))
        H.ensure("operation, run id and tags", st["op_type"] == "featurize" and st["metadata"]["run_id"] == 3 and list(st["metadata"]["tags"]) == ["x"])
        good = []
        inter = []
        for f, p in zip(names, files):
            e = st["files"][p]
            H.ensure("checksum of the file", e["processed_md5_chksum"] == md5(p))
            if hows[f] == "unreadable":
                H.ensure("unreadable file reported", not e["featurizers"] and e.get("traceback") and f in "".join(e["traceback"]), f)
                continue
            H.ensure("one entry per featurizer", [x["featurizer_name"] for x in e["featurizers"]] == ["FzA", "FzB"], e)
            for x in e["featurizers"]:
                z = x["featurizer_name"]
                h = how(f, z)
                hp = {"a": 1, "b": [1, 2]} if z == "FzA" else dict({"a": 7}, **(given or {}))
                H.ensure("hyperparameters", x["hyperparameters"] == hp, x)
                H.ensure("valid is true exactly if applicable", x["valid"] is (h in ("ok", "featurizing breaks")), (f, z, h))
                H.ensure("featurized is true exactly if features exist", x["featurized"] is (h == "ok"), (f, z, h))
                H.ensure("traceback exactly for failures", (x["traceback"] is not None) == (h != "ok"), (f, z, h))
                if h != "ok":
                    H.ensure("traceback names the failure", z in "".join(x["traceback"]), (f, z, h))
                else:
                    good.append((p, z, hp))
                if case == "intermediates" and h == "ok":
                    H.ensure("intermediate file", x["output"] is not None and os.path.dirname(x["output"]) == os.path.join(d, "out") and x["subop_md5_chksum"] == md5(x["output"]), x)
                    with open(x["output"]) as fh:
                        o = json.load(fh)
                    H.ensure("intermediate file holds that featurizer", o["@class"] == z and o["paths"]["structured"] == p)
                    inter.append(x["output"])
                else:
                    H.ensure("no intermediate file", x["output"] is None and x["subop_md5_chksum"] is None, x)
        H.ensure("intermediate files differ", len(set(inter)) == len(inter))
        fm = st["feature_matrix"]
        if not good:
            return
        H.ensure("matrix created", fm["created"] is True and fm["traceback"] is None and os.path.exists(fm["output"]), fm)
        H.ensure("matrix lies where asked", fm["output"] == os.path.join(d, "out", "fm.json") if case == "named" else os.path.dirname(fm["output"]) == (os.path.join(d, "out") if case == "intermediates" else d), fm)
        from monty.serialization import loadfn
        mx = loadfn(fm["output"]).matrix
        got = {}
        for ix, row in mx.iterrows():
            for c, v in row.items():
                if v == v:
                    got[(ix, c.split("::")[1], c.split("::")[0])] = v
        ref = {}
        for p, z, hp in good:
            ref[(p, z, "val")] = float(len(p) * 10 + ord(os.path.basename(p)[0]))
            ref[(p, z, "hp")] = float(hp["a"])
        H.ensure("matrix holds exactly the successful featurizers", got == ref, (sorted(got), sorted(ref)))


@harness("C20", "featurizer_selection", conc=40, targets=[C])
def h_select(H):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        mod = external(H)
        m = H.mod(C)
        log = []
        feats = ["HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"]
        tg = ["TrajectoryFastCharge", "DiagnosticProperties"]
        more = ["IntracellCycles", "IntracellFeatures"]

        def stub(name):
            def init(self, structured_datapath, hyperparameters=None):
                log.append((name, hyperparameters))
                raise Boom(name)
            return type(name, (mod.FzA,), {"DEFAULT_HYPERPARAMETERS": {"a": name}, "__init__": init})
        case = H.choice("case", ["features", "targets", "default", "one", "two and given", "unknown", "not a featurizer", "no module", "list", "two keys", "twice"])
        want = None
        kw = {"features": {"featurize_with": ("all_features", "TrajectoryFastCharge")}, "targets": {"featurize_with": ("all_targets",)}, "default": {}, "one": {"featurize_with": ("IntracellCycles",)},
              "two and given": {"featurize_with": ("DeltaQFastCharge", "IntracellFeatures"), "featurize_with_hyperparams": ("{'DiagnosticProperties': {'zz': 3}}", "{'CycleSummaryStats': {'a': 0}}")},
              "twice": {"featurize_with": ("DeltaQFastCharge",), "featurize_with_hyperparams": ("{'DeltaQFastCharge': {'a': 5}}", "{'DeltaQFastCharge': {'b': 6}}")},
              "unknown": {"featurize_with": ("NoSuchThing",)}, "not a featurizer": {"featurize_with": ("vc_external.NotOne",)}, "no module": {"featurize_with": ("vc_nowhere.X",)},
              "list": {"featurize_with_hyperparams": ("['CycleSummaryStats']",)}, "two keys": {"featurize_with_hyperparams": ("{'CycleSummaryStats': {}, 'DeltaQFastCharge': {}}",)}}[case]
        p = os.path.join(d, "p.json")
        with open(p, "w") as f:
            f.write("x")
        ob = persister(H, d)
        H.cover("run")
        with swapped(m, auto_load_processed=lambda path: None, **{n: stub(n) for n in feats + tg + more}):
            r = invoke(H, "featurize", ob, files=(p,), **kw)
        if case in ("unknown", "not a featurizer", "no module", "list", "two keys"):
            H.ensure("refused with an error status", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            H.ensure("nothing processed", not log, log)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        if case in ("features", "default"):
            want = [(n, {"a": n}) for n in feats]
        elif case == "targets":
            want = [(n, {"a": n}) for n in tg]
        elif case == "twice":
            want = [("DeltaQFastCharge", {"a": "DeltaQFastCharge"}), ("DeltaQFastCharge", {"a": 5}), ("DeltaQFastCharge", {"a": "DeltaQFastCharge", "b": 6})]
        elif case == "one":
            want = [("IntracellCycles", {"a": "IntracellCycles"})]
        else:
            want = [("DeltaQFastCharge", {"a": "DeltaQFastCharge"}), ("IntracellFeatures", {"a": "IntracellFeatures"}), ("DiagnosticProperties", {"a": "DiagnosticProperties", "zz": 3}), ("CycleSummaryStats", {"a": 0})]
        H.ensure("exactly the requested featurizers with their hyperparameters", sorted(map(str, log)) == sorted(map(str, want)), log)


# ---------------------------------------------------------------- train, predict, protocol
class Saved:
    """stands for a model experiment or matrix"""
    def __init__(self, text):
        self.text = text
        self.matrix = types.SimpleNamespace(shape=(3, 2))

    def as_dict(self):
        return {"@module": "none", "@class": "none", "text": self.text}


@harness("C20", "train_report", conc=60, targets=[C])
def h_train(H):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        m = H.mod(C)
        log = []
        how = H.choice("how", ["ok", "matrix unreadable", "experiment refused", "training breaks", "interrupt"])
        frac = H.real("frac", 0, 1) if H.choice("score", [False, True]) else None
        halt = H.choice("halt", [False, True])
        named = H.choice("named", [False, True])

        class Experiment(Saved):
            ALLOWED_MODELS = ("elasticnet", "ridge", "lasso")

            def __init__(self, feature_matrix=None, target_matrix=None, targets=None, model_name=None, **k):
                Saved.__init__(self, "trained")
                log.append(("init", feature_matrix.text, target_matrix.text, targets, model_name, k))
                if how == "experiment refused":
                    raise Boom("refused")
                self.optimal_hyperparameters = {"alpha": 0.5}

            def fit(self):
                if how == "training breaks":
                    raise Boom("training")
                if how == "interrupt":
                    raise KeyboardInterrupt()

            def train(self, X=None, y=None):
                self.fit()
                log.append(("train",))
                return "model", {"rmse": 1.5}

            def train_and_score(self, train_and_val_frac=0.8):
                self.fit()
                log.append(("score", train_and_val_frac))
                return "model", {"rmse": 2.5}, {"rmse": 3.5}

        def read(path):
            if how == "matrix unreadable":
                raise ValueError("matrix")
            return Saved(os.path.basename(path))
        FMx = types.SimpleNamespace(from_json_file=read)
        for n in ("f.json", "t.json"):
            with open(os.path.join(d, n), "w") as f:
                f.write(n)
        opts = {}
        sel = H.choice("options", [False, True])
        if sel:
            opts = dict(train_feature_nan_thresh=H.real("tf", 0, 1), train_sample_nan_thresh=H.real("ts", 0, 1), predict_sample_nan_thresh=H.real("ps", 0, 1), impute_strategy="mean", kfold=H.int("kf", 2, 9), max_iter=H.int("mi", 1, 10 ** 6), tol=H.real("tol", 0, 1), l1_ratios="0.5,1.0", homogenize_features=False)
        if named:
            opts["output_filename"] = os.path.join(d, "model.json")
        ob = persister(H, d, run_id=9, halt=halt)
        H.cover("run")
        with swapped(m, BEEPFeatureMatrix=FMx, BEEPLinearModelExperiment=Experiment):
            r = invoke(H, "train", ob, feature_matrix_file=os.path.join(d, "f.json"), target_matrix_file=os.path.join(d, "t.json"), targets=("t1", "t2"), model_name="ridge", train_on_frac_and_score=frac, **opts)
        if how == "interrupt" or halt and how != "ok":
            H.ensure("halt-on-error or an interrupt ends the command with an error", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        st = status(H, d)
        H.ensure("operation and run id", st["op_type"] == "train" and st["metadata"]["run_id"] == 9)
        H.ensure("checksums of the inputs", st["files"]["features"] == os.path.join(d, "f.json") and st["files"]["targets"] == os.path.join(d, "t.json") and st["files"]["features_md5_chksum"] == md5(os.path.join(d, "f.json")) and st["files"]["targets_md5_chksum"] == md5(os.path.join(d, "t.json")))
        made = [f for f in os.listdir(d) if f not in ("f.json", "t.json", "status.json")]
        H.ensure("traceback exactly for failures", (st["traceback"] is not None) == (how != "ok"))
        tm = st["trained_model"]
        if how != "ok":
            H.ensure("no model reported", tm["created"] is False and tm["output"] is None and not made and not st["model_results"], (tm, made))
            return
        H.ensure("model reported where it is", tm["created"] is True and made == [os.path.basename(tm["output"])] and os.path.dirname(tm["output"]) == d, (tm, made))
        if named:
            H.ensure("model written to the name given", tm["output"] == os.path.join(d, "model.json"), tm)
        c = log[0]
        H.ensure("matrices, targets and model", c[1:5] == ("f.json", "t.json", ["t1", "t2"], "ridge"), c)
        ref = {"drop_nan_training_targets": True}
        if sel:
            ref.update(train_feature_drop_nan_thresh=opts["train_feature_nan_thresh"], train_sample_drop_nan_thresh=opts["train_sample_nan_thresh"], predict_sample_nan_thresh=opts["predict_sample_nan_thresh"], impute_strategy="mean", kfold=opts["kfold"], max_iter=opts["max_iter"], tol=opts["tol"], l1_ratio=[0.5, 1.0], homogenize_features=False)
        got = {k: v for k, v in c[5].items() if v is not None}
        H.ensure("options reach the model", set(got) == set(ref), (sorted(got), sorted(ref)))
        for k in ref:
            H.ensure("options reach the model", same(H, got[k], ref[k]), k)
        mr = st["model_results"]
        if frac is None:
            H.ensure("trained on all data", ("train",) in log and mr["training_error"] == {"rmse": 1.5} and not mr.get("test_error"), mr)
        else:
            H.ensure("trained on the fraction", same(H, [e[1] for e in log if e[0] == "score"], [frac]))
            H.ensure("errors reported", mr["training_error"] == {"rmse": 2.5} and mr["test_error"] == {"rmse": 3.5}, mr)
        H.ensure("hyperparameters reported", mr["optimal_hyperparameters"] == {"alpha": 0.5}, mr)


@harness("C20", "predict_report", conc=40, targets=[C])
def h_pred(H):
    import pandas as pd
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        m = H.mod(C)
        how = H.choice("how", ["ok", "matrix unreadable", "model unreadable", "prediction breaks", "interrupt"])
        halt = H.choice("halt", [False, True])
        named = H.choice("named", [False, True])
        thr = H.choice("threshold", ["none", "zero", "any"])
        t = {"none": None, "zero": 0.0}.get(thr, H.real("thr", 0, 1))
        ex = Saved("model")
        ex.predict_sample_nan_thresh = 0.75
        seen = []

        def predict(fm, *a, **k):
            seen.append((fm.text, ex.predict_sample_nan_thresh))
            if how == "prediction breaks":
                raise Boom("p")
            if how == "interrupt":
                raise KeyboardInterrupt()
            return pd.DataFrame({"t1": [1.5, 2.5]}, index=["s1", "s2"]), ["s3"]
        ex.predict = predict

        def load(kind):
            def g(path):
                if how == kind + " unreadable":
                    raise ValueError(kind)
                return ex if kind == "model" else Saved(os.path.basename(path))
            return types.SimpleNamespace(from_json_file=g)
        for n in ("f.json", "m.json"):
            with open(os.path.join(d, n), "w") as f:
                f.write(n)
        ob = persister(H, d, run_id=4, halt=halt)
        kw = dict(output_filename=os.path.join(d, "p.json")) if named else {}
        H.cover("run")
        with swapped(m, BEEPFeatureMatrix=load("matrix"), BEEPLinearModelExperiment=load("model")):
            r = invoke(H, "predict", ob, model_file=os.path.join(d, "m.json"), feature_matrix_file=os.path.join(d, "f.json"), predict_sample_nan_thresh=t, **kw)
        if how == "interrupt" or halt and how != "ok":
            H.ensure("halt-on-error or an interrupt ends the command with an error", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        st = status(H, d)
        made = [f for f in os.listdir(d) if f not in ("f.json", "m.json", "status.json")]
        H.ensure("operation and run id", st["op_type"] == "predict" and st["metadata"]["run_id"] == 4)
        H.ensure("checksums of the inputs", st["files"]["model_md5_chksum"] == md5(os.path.join(d, "m.json")) and st["files"]["predict_on_features_md5_chksum"] == md5(os.path.join(d, "f.json")))
        H.ensure("traceback exactly for failures", (st["traceback"] is not None) == (how != "ok"))
        pr = st["predictions"]
        if how != "ok":
            H.ensure("no predictions reported", pr["created"] is False and pr["output"] is None and not made, (pr, made))
            return
        H.ensure("predictions reported where they are", pr["created"] is True and made == [os.path.basename(pr["output"])] and os.path.dirname(pr["output"]) == d and (not named or made == ["p.json"]), (pr, made))
        with open(pr["output"]) as f:
            H.ensure("predictions written", json.load(f) == {"t1": {"s1": 1.5, "s2": 2.5}})
        H.ensure("matrix", [s[0] for s in seen] == ["f.json"])
        H.ensure("threshold overrides that of the model", same(H, seen[0][1], 0.75 if t is None else t), seen)


@harness("C20", "protocol_report", conc=20, targets=[C])
def h_prot(H):
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        m = H.mod(C)
        how = H.choice("how", ["ok", "some fail", "breaks", "no csv", "no directory"])
        halt = H.choice("halt", [False, True])
        csv, out = os.path.join(d, "x.csv"), os.path.join(d, "out")
        if how != "no csv":
            with open(csv, "w") as f:
                f.write("a,b")
        if how != "no directory":
            os.mkdir(out)
        seen = []

        def gen(csv_filename, output_directory=None):
            seen.append((csv_filename, output_directory))
            if how == "breaks":
                raise Boom("csv")
            if how == "some fail":
                return ["p1.000"], [{"comment": "Unable to find template", "error": "Not Found"}], "error", {"comment": "Generated 1 of 2", "error": "Failed 1 of 2"}
            return ["p1.000", "p2.mps"], [], "success", {"comment": "Generated 2 of 2", "error": ""}
        given = H.choice("dir", [True, False])
        ob = persister(H, d, run_id=1, halt=halt)
        H.cover("run")
        with swapped(m, generate_protocol_files_from_csv=gen):
            r = invoke(H, "protocol", ob, csv_file=csv, output_dir=out if given else None)
        if how == "no csv" or how == "no directory" and given:
            H.ensure("refused", not r.ok and not seen, r)
            return
        H.ensure("csv and directory", seen == [(csv, out if given else d)], seen)
        bad = how in ("some fail", "breaks")
        if halt and bad:
            H.ensure("halt-on-error ends the command with an error", not r.ok and getattr(r.exc, "exit_code", 1) != 0, r)
            return
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        st = status(H, d)
        H.ensure("operation and run id", st["op_type"] == "protocol" and st["metadata"]["run_id"] == 1 and st["files"]["csv_md5_chksum"] == md5(csv))
        H.ensure("traceback exactly for failures", (st["traceback"] is not None) == bad)
        gen_ = sorted(k for k, v in st["protocol"].items() if v["generated"])
        H.ensure("generated files reported", gen_ == ({"ok": ["p1.000", "p2.mps"], "some fail": ["p1.000"]}.get(how, []) if how != "no directory" else ["p1.000", "p2.mps"]), st["protocol"])


@harness("C20", "command_line", proof=False, conc=10, targets=[C], thorough_conc=60)
def h_cli(H):
    """through the argument parser"""
    from click.testing import CliRunner
    rng = H.rng
    m = H.mod(C)
    d = os.path.realpath(H.tmpdir())
    d = tempfile.mkdtemp(dir=d)
    log = []
    names = ["r%d.csv" % i for i in range(rng.randint(1, 4))]
    hows = [rng.choice(HOW) for _ in names]
    for n in names:
        with open(os.path.join(d, n), "w") as f:
            f.write(n)
    args = []
    ref = dict(v_range=None, resolution=1000, nominal_capacity=1.1, full_fast_charge=0.8, charge_axis="charge_capacity", discharge_axis="voltage")
    for o, k, v in (("-v", "v_range", (2.0, 4.5)), ("--resolution", "resolution", 77), ("-n", "nominal_capacity", 2.5), ("--full-fast-charge", "full_fast_charge", 0.5), ("-c", "charge_axis", "voltage"), ("--discharge-axis", "discharge_axis", "test_time")):
        if rng.random() < 0.5:
            args += [o] + [str(x) for x in (v if isinstance(v, tuple) else (v,))]
            ref[k] = v
    old = os.getcwd()
    os.chdir(d)
    os.mkdir("out")
    halt = rng.random() < 0.3
    try:
        with swapped(m, auto_load=lambda p: (_ for _ in ()).throw(ValueError(p)) if hows[names.index(os.path.basename(p))] == "unreadable" else Datapath(os.path.basename(p), hows[names.index(os.path.basename(p))], log)):
            r = CliRunner().invoke(m.cli, ["-r", "12", "-t", "x", "-t", "y", "-s", os.path.join(d, "st.json")] + (["--halt-on-error"] if halt else []) + ["structure"] + args + ["-d", "out"] + names)
    finally:
        os.chdir(old)
    bad = any(h != "ok" for h in hows)
    H.ensure("exit code", (r.exit_code != 0) == (halt and bad), (hows, halt, r.exit_code))
    if halt and bad:
        return
    with open(os.path.join(d, "st.json")) as f:
        st = json.load(f)
    H.ensure("run id and tags", st["metadata"]["run_id"] == 12 and st["metadata"]["tags"] == ["x", "y"])
    H.ensure("files", sorted(st["files"]) == sorted(os.path.join(d, n) for n in names))
    for n, h in zip(names, hows):
        e = st["files"][os.path.join(d, n)]
        H.ensure("outcome", e["structured"] == (h == "ok") and e["validated"] == (h in ("ok", "structuring breaks", "writing breaks")) and (e["traceback"] is None) == (h == "ok"), (n, h))
        H.ensure("output", (e["output"] == os.path.join(d, "out", n[:-4] + "_structured.json.gz")) == (h == "ok") == os.path.exists(os.path.join(d, "out", n[:-4] + "_structured.json.gz")), (n, h))
    for c in log:
        if c[0] == "structure":
            H.ensure("options", c[2:4] + c[5:9] == (ref["v_range"], ref["resolution"], ref["nominal_capacity"], ref["full_fast_charge"], ref["charge_axis"], ref["discharge_axis"]), (c, ref))
