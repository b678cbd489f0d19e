P = """
import os, tempfile, json, warnings
warnings.simplefilter("ignore")
from click.testing import CliRunner
import beep.cmd as m
from beep.features.base import BEEPFeaturizer
import pandas as pd
D = tempfile.mkdtemp()
os.chdir(D)
class DP:
    def __init__(self, n, how):
        self.n, self.how, self.schema, self.structuring_parameters = n, how, "s", {}
    def validate(self):
        return (True, "") if self.how != "invalid" else (False, "bad")
    def structure(self, **k):
        if self.how == "breaks":
            raise ValueError(self.n)
    autostructure = structure
    def to_json_file(self, f, omit_raw=True):
        if self.how == "unwritable":
            raise OSError(self.n)
        open(f, "w").write(self.n)
def structure(hows, *args, halt=False):
    for n in hows:
        open(n, "w").write("x" + n)
    m.auto_load = lambda p: DP(os.path.basename(p), hows[os.path.basename(p)])
    r = CliRunner().invoke(m.cli, ["-s", "st.json"] + (["--halt-on-error"] if halt else []) + ["structure"] + list(args) + list(hows))
    return r, (json.load(open("st.json"))["files"] if os.path.exists("st.json") else None)
"""
FZ = """
import sys, types
ext = types.ModuleType("ext")
class Fz(BEEPFeaturizer):
    DEFAULT_HYPERPARAMETERS = {"a": 1, "b": 2}
    def __init__(self, structured_datapath, hyperparameters=None):
        self.hyperparameters, self.features, self.metadata = hyperparameters, None, {}
        self.paths, self.linked_semiunique_id = {"structured": structured_datapath}, structured_datapath
    def validate(self):
        return True, None
    def create_features(self):
        if self.paths["structured"].endswith("bad.json"):
            raise ValueError("no")
        self.features = pd.DataFrame({"v": [float(self.hyperparameters["a"])]})
Fz.__module__ = "ext"
ext.Fz = Fz
sys.modules["ext"] = ext
m.auto_load_processed = lambda p: p
def featurize(names, *args):
    for n in names:
        open(n, "w").write(n)
    r = CliRunner().invoke(m.cli, ["-s", "st.json", "featurize"] + list(args) + list(names))
    return r, json.load(open("st.json"))
"""
SEEDS = [
 dict(id="c20-output-names-shift", property="C20",
      edits=[("beep/cmd.py", "                output_fname = output_files[i]\n", "                output_fname = output_files.pop(0)\n")],
      needs="several files the first of which is invalid or fails", breaks="outputs are written to the names of other files",
      demo=P + """
r, st = structure({"a.csv": "invalid", "b.csv": "ok"})
assert st[os.path.join(os.getcwd(), "b.csv")]["output"].endswith("b_structured.json.gz"), st
"""),
 dict(id="c20-structured-before-write", property="C20",
      edits=[("beep/cmd.py", """                dp.to_json_file(output_fname, omit_raw=no_raw)
                op_result["structured"] = True
""", """                op_result["structured"] = True
                dp.to_json_file(output_fname, omit_raw=no_raw)
""")],
      needs="an output file that cannot be written", breaks="the status says structured though nothing was written",
      demo=P + """
r, st = structure({"a.csv": "unwritable", "b.csv": "ok"})
assert st[os.path.join(os.getcwd(), "a.csv")]["structured"] is False, st
"""),
 dict(id="c20-halt-only-structuring", property="C20",
      edits=[("beep/cmd.py", """            op_result["traceback"] = tbfmt

            if ctx.obj.halt_on_error:
                raise
""", """            op_result["traceback"] = tbfmt

            if ctx.obj.halt_on_error and op_result["validated"]:
                raise
""")],
      needs="--halt-on-error and an invalid or unreadable file", breaks="the command goes on after an invalid file",
      demo=P + """
r, st = structure({"a.csv": "invalid", "b.csv": "ok"}, halt=True)
assert r.exit_code != 0 and not os.path.exists("b_structured.json.gz")
"""),
 dict(id="c20-default-hyperparameters-leak", property="C20",
      edits=[("beep/cmd.py", "        hps = copy.deepcopy(fclass.DEFAULT_HYPERPARAMETERS)\n", "        hps = fclass.DEFAULT_HYPERPARAMETERS\n")],
      needs="a featurizer requested with default and with given hyperparameters in one command", breaks="the given hyperparameters replace the defaults of the other request",
      demo=P + FZ + """
r, st = featurize(["p.json"], "-f", "ext.Fz", "-h", "{'ext.Fz': {'a': 5}}")
hp = [x["hyperparameters"]["a"] for x in list(st["files"].values())[0]["featurizers"]]
assert hp == [1, 5], hp
"""),
 dict(id="c20-failed-featurizer-in-matrix", property="C20",
      edits=[("beep/cmd.py", """                bfs.append(f)

                if save_intermediates:""", """
                if save_intermediates:"""), ("beep/cmd.py", """                f.create_features()
                op_subresult["featurized"] = True
""", """                bfs.append(f)
                f.create_features()
                op_subresult["featurized"] = True
""")],
      needs="a featurizer that fails while creating features for one of the files", breaks="the matrix of the successful features is not created",
      demo=P + FZ + """
r, st = featurize(["bad.json", "good.json"], "-f", "ext.Fz")
assert st["feature_matrix"]["created"] is True, st["feature_matrix"]
"""),
 dict(id="c20-train-zero-options", property="C20",
      edits=[("beep/cmd.py", "    additional_kwargs = {k: v for k, v in additional_kwargs.items() if v is not None}", "    additional_kwargs = {k: v for k, v in additional_kwargs.items() if v}")],
      needs="an option of value 0 or False (thresholds 0, --homogenize-features False)", breaks="the option is ignored and the default used",
      demo=P + """
seen = {}
class E:
    def __init__(self, **k):
        seen.update(k); raise ValueError("stop")
m.BEEPLinearModelExperiment = E
import types
m.BEEPFeatureMatrix = types.SimpleNamespace(from_json_file=lambda p: None)
for n in ("f.json", "t.json"): open(n, "w").write("{}")
CliRunner().invoke(m.cli, ["train", "-fm", "f.json", "-tm", "t.json", "-t", "x", "-m", "ridge", "--train-sample-nan-thresh", "0.0", "--homogenize-features", "False"])
assert seen.get("train_sample_drop_nan_thresh") == 0.0 and seen.get("homogenize_features") is False, seen
"""),
 dict(id="c20-validation-only-report", property="C20",
      edits=[("beep/cmd.py", """            is_valid, validation_reason = dp.validate()
            op_result["validated"] = is_valid

            if not is_valid:
                raise""", """            is_valid, validation_reason = dp.validate()
            op_result["validated"] = is_valid

            if not is_valid and not validation_only:
                raise""")],
      needs="--validation-only with an invalid file", breaks="the reason why the file is invalid is not reported and halt-on-error is ignored",
      demo=P + """
r, st = structure({"a.csv": "invalid"}, "--validation-only")
assert st[os.path.join(os.getcwd(), "a.csv")]["traceback"], st
"""),
]
