import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from s06 import GEN

FZ = '''
import pandas as pd
from beep.features.base import BEEPFeaturizer, BEEPFeatureMatrix, BEEPFeatureMatrixError
class Fz(BEEPFeaturizer):
    DEFAULT_HYPERPARAMETERS = {"p": 1, "q": 2}
    def validate(self): return True, None
    def create_features(self): pass
def mk(hyper, path, **feats):
    f = Fz(None, hyper)
    f.paths = {"structured": path}
    f.features = pd.DataFrame({k: [v] for k, v in feats.items()})
    return f
'''
SEEDS = [
 dict(id="c15-diagnostic-summary-needs-data", property="C15",
      edits=[("beep/structure/base.py", "            diagnostic_summary = self.diagnostic_summary.to_dict(\n                \"list\") if self.diagnostic_summary is not None else None\n            diagnostic_interpolated = self.diagnostic_data.to_dict(\"list\") if self.diagnostic_data is not None else None\n",
              "            diagnostic_summary = diagnostic_interpolated = None\n            if self.diagnostic_data is not None:\n                diagnostic_summary = self.diagnostic_summary.to_dict(\"list\")\n                diagnostic_interpolated = self.diagnostic_data.to_dict(\"list\")\n")],
      needs="a structured run on which only summarize_diagnostic (not the diagnostic interpolation) was done, saved and loaded", breaks="its diagnostic summary is dropped on saving",
      demo=GEN + '''
d = dp(rows([0, 1, 2]))
d.structure(resolution=10)
d.diagnostic = DiagnosticConfig({"reset": [0]})
d.diagnostic_summary = d.summarize_diagnostic()
q = ArbinDatapath.from_dict(d.as_dict())
assert q.diagnostic_summary is not None and q.diagnostic_data is None
'''),
 dict(id="c15-structured-any-table", property="C15",
      edits=[("beep/structure/base.py", "            summary = self.structured_summary.to_dict(\"list\")\n            cycles_interpolated = self.structured_data.to_dict(\"list\")\n",
              "            summary = self.structured_summary.dropna(axis=1, how=\"all\").to_dict(\"list\")\n            cycles_interpolated = self.structured_data.to_dict(\"list\")\n")],
      needs="a structured run with a summary column that has no value at all (e.g. no temperature or resistance recorded)", breaks="the column is gone after saving and loading",
      demo=GEN + '''
rs = rows([0, 1, 2])
for r in rs:
    r["internal_resistance"] = float("nan")
d = dp(rs)
d.structure(resolution=10)
q = ArbinDatapath.from_dict(d.as_dict())
assert set(q.structured_summary.columns) == set(d.structured_summary.columns), set(d.structured_summary.columns) ^ set(q.structured_summary.columns)
'''),
 dict(id="c15-channel-truthiness", property="C15",
      edits=[("beep/structure/base.py", "            self.channel_id = metadata_dict.get(\"channel_id\")\n", "            self.channel_id = metadata_dict.get(\"channel_id\") or metadata_dict.get(\"channel\")\n")],
      needs="a run recorded on channel 0", breaks="the channel of such a run is None instead of 0 (and so is its identity)",
      demo='''
import pandas as pd
from beep.structure.arbin import ArbinDatapath
d = ArbinDatapath(pd.DataFrame({"cycle_index": [0]}), {"barcode": "b", "channel_id": 0}, {"raw": "/none"})
assert d.metadata.channel_id == 0 and "channel:0" in d.semiunique_id, d.semiunique_id
'''),
 dict(id="c16-hash-unsorted", property="C16",
      edits=[("beep/features/base.py", "                    params = sorted(list(bf.hyperparameters.items()), key=lambda x: x[0])\n", "                    params = sorted(list(bf.hyperparameters.items()), key=lambda x: x[0].split(\"_\")[0])\n")],
      needs="hyperparameters whose names share their first word, written in two different orders", breaks="the same feature lands in two different columns (and duplicates are not refused)",
      demo=FZ + '''
m = BEEPFeatureMatrix([mk({"p": 3, "q": 4, "cycle_late": 1, "cycle_early": 2}, "/a.json", x=1.0), mk({"cycle_early": 2, "cycle_late": 1, "p": 3, "q": 4}, "/b.json", x=2.0)]).matrix
assert m.shape == (2, 1), m
'''),
 dict(id="c16-hash-list-order", property="C16",
      edits=[("beep/features/base.py", "                    param_str = \"-\".join([f\"{k}:{v}\" for k, v in params])\n", "                    param_str = \"-\".join([f\"{k}:{sorted(v) if isinstance(v, list) and len(v) == 2 else v}\" for k, v in params])\n")],
      needs="two hyperparameter sets that differ only in the order of a list (e.g. [late, early] cycles instead of [early, late])", breaks="different hyperparameters share one column, or are refused as duplicates",
      demo=FZ + '''
m = BEEPFeatureMatrix([mk({"p": 3, "q": [5, 2]}, "/a.json", x=1.0), mk({"p": 3, "q": [2, 5]}, "/a.json", x=2.0)]).matrix
assert m.shape == (1, 2), m
'''),
 dict(id="c16-inner-join", property="C16",
      edits=[("beep/features/base.py", "            self.matrix = pd.concat(rows, axis=0)\n", "            self.matrix = pd.concat(rows, axis=0, join=\"inner\") if len(rows) > 2 else pd.concat(rows, axis=0)\n")],
      needs="more than two files, one of which misses a feature", breaks="features not available for every file disappear from the matrix",
      demo=FZ + '''
m = BEEPFeatureMatrix([mk(None, "/%s.json" % c, x=1.0, **({"y": 2.0} if c != "c" else {})) for c in "abc"]).matrix
assert m.shape == (3, 2), m
'''),
 dict(id="c16-relabel-in-place", property="C16",
      edits=[("beep/features/base.py", "                    df = copy.deepcopy(bf.features)\n", "                    df = bf.features if len(beepfeaturizers) == 1 else copy.deepcopy(bf.features)\n")],
      needs="a single featurizer put in a matrix, then saved or put in another matrix", breaks="the featurizers' own feature tables are renamed",
      demo=FZ + '''
f = mk(None, "/a.json", x=1.0)
a = list(BEEPFeatureMatrix([f]).matrix.columns)
assert list(f.features.columns) == ["x"], f.features
assert list(BEEPFeatureMatrix([f]).matrix.columns) == a
'''),
]
