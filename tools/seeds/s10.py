P = """
import os, tempfile, warnings, pandas as pd, numpy as np
warnings.simplefilter("ignore")
from beep.features.base import BEEPFeatureMatrix
from beep.features.core import CycleSummaryStats
from beep.model import BEEPLinearModelExperiment
from beep.prediction.beep_data_splitter import BEEPDataSplitter
D = tempfile.mkdtemp()
N = float("nan")
def fm(cols, names=None):
    n = len(next(iter(cols.values())))
    b = BEEPFeatureMatrix([])
    b.matrix = pd.DataFrame(cols, index=names or ["c%d" % i for i in range(n)])
    return b
"""
SEEDS = [
 dict(id="c19-sample-threshold-rows", property="C19",
      edits=[("beep/model.py", "        X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])", "        X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * self.feature_matrix.matrix.shape[1])")],
      needs="features dropped for missing values next to a sample with some missing features", breaks="samples are judged by features the model does not use",
      demo=P + """
x = fm({"a::S::h": [1, 2, N, 4.0], "b::S::h": [1, 5, 2, 4.0], "c::S::h": [N, N, N, 4.0], "d::S::h": [N, N, N, 1.0]})
e = BEEPLinearModelExperiment(x, fm({"t::S::h": [1, 2, 3, 4.0]}), ["t::S"], "ridge", train_feature_drop_nan_thresh=0.6, train_sample_drop_nan_thresh=0.5)
assert list(e.X.columns) == ["a::S", "b::S"] and len(e.X) == 4, e.X
"""),
 dict(id="c19-impute-before-sample-drop", property="C19",
      edits=[("beep/model.py", """        X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
        X = self._impute_df(X, method=impute_strategy)
""", """        kept = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1]).index
        X = self._impute_df(X, method=impute_strategy).loc[kept]
""")],
      needs="a dropped sample that has a value of a feature imputed for another sample", breaks="the imputed value is taken over dropped samples as well",
      demo=P + """
x = fm({"a::S::h": [1, 2, N, 100.0], "b::S::h": [1, 5, 2, N], "c::S::h": [1, 1, 2, N]})
e = BEEPLinearModelExperiment(x, fm({"t::S::h": [1, 2, 3, 4.0]}), ["t::S"], "ridge", train_feature_drop_nan_thresh=0.5, train_sample_drop_nan_thresh=0.6)
assert list(e.X["a::S"]) == [1, 2, 1.5], e.X
"""),
 dict(id="c19-predict-column-order", property="C19",
      edits=[("beep/model.py", """        X = X[self.feature_labels].replace([np.inf, -np.inf], np.nan).dropna(
            axis=0,
            thresh=self""", """        X = X.replace([np.inf, -np.inf], np.nan)[[c for c in X.columns if c in self.feature_labels]].dropna(
            axis=0,
            thresh=self"""), ("beep/model.py", "        X_indices = X.index\n        X = self.scaler.transform(X)", "        X_indices = X.index\n        X = self.scaler.transform(X.values)")],
      needs="a prediction matrix whose columns come in another order than in training", breaks="features are multiplied with the coefficients of other features",
      demo=P + """
r = np.random.RandomState(0)
a, b = r.rand(20), r.rand(20) * 9
e = BEEPLinearModelExperiment(fm({"a::S::h": a, "b::S::h": b}), fm({"t::S::h": 3 * a - b}), ["t::S"], "ridge")
e.train()
p, _ = e.predict(fm({"a::S::h": a, "b::S::h": b}))
q, _ = e.predict(fm({"b::S::h": b, "a::S::h": a}))
assert np.allclose(p, q)
"""),
 dict(id="c19-targets-by-position", property="C19",
      edits=[("beep/model.py", "        y = y[targets].loc[X.index]", "        y = y[targets].iloc[:X.shape[0]].set_index(X.index)")],
      needs="a sample dropped for missing features that is not the last one", breaks="the remaining samples are paired with the targets of others",
      demo=P + """
x = fm({"a::S::h": [1, N, 3, 4.0], "b::S::h": [1, N, 2, 4.0]})
e = BEEPLinearModelExperiment(x, fm({"t::S::h": [1, 2, 3, 4.0]}), ["t::S"], "ridge", train_feature_drop_nan_thresh=0.5)
assert list(e.y["t::S"]) == [1, 3, 4], e.y
"""),
 dict(id="c19-split-group-order", property="C19",
      edits=[("beep/prediction/beep_data_splitter.py", "                train_y = self.y.loc[train_X.index]\n\n                test_X = self.X[self.X[\"grouping_column\"].isin(test_grouping_labels)][self.feature_labels]", "                train_y = self.y.loc[train_X.index]\n\n                test_X = self.X[self.X[\"grouping_column\"].str.startswith(tuple(test_grouping_labels))][self.feature_labels]")],
      needs="grouping values one of which is a prefix of another (1.0 and 1.05)", breaks="groups appear in train and test",
      demo=P + """
n = 8
x = fm({"a::S::h": np.arange(n) * 1.0, "t::S::h": np.arange(n) * 2.0, "p::S::h": [0.5, 0.5, 0.55, 0.55, 2.0, 2.0, 2.05, 2.05]})
s = BEEPDataSplitter(x, ["a::S"], ["t::S"], n_splits=4, split_columns=["p::S"])
for d in s.split():
    assert not set(d.train_X.index) & set(d.test_X.index), (d.train_X, d.test_X)
"""),
 dict(id="c19-excluded-group-share", property="C19",
      edits=[("beep/prediction/beep_data_splitter.py", "                    if len(X_incl_group)/len(X_group) < drop_split_threshold:", "                    if len(X_incl_group)/len(X_group) <= drop_split_threshold and len(X_group) > 1:")],
      needs="a group with exactly the required share of included samples", breaks="a group that reaches the threshold is dropped",
      demo=P + """
n = 8
x = fm({"a::S::h": np.arange(n) * 1.0, "t::S::h": np.arange(n) * 2.0, "p::S::h": [1.0, 1, 2, 2, 3, 3, 4, 4], "ok::S::h": [True, False] + [True] * 6})
s = BEEPDataSplitter(x, ["a::S"], ["t::S"], n_splits=2, split_columns=["p::S"], exclusion_columns=["ok::S"])
assert len(s.X) == 7, s.X
"""),
 dict(id="c19-reload-intercept", property="C19",
      edits=[("beep/model.py", """                "intercept_": self.model.intercept_.tolist(),""", """                "intercept_": self.y[self.targets].mean().tolist() if self.multi else float(self.y[self.targets[0]].mean()),""")],
      needs="a model trained on part of the data (train_and_score) and reloaded", breaks="the reloaded model predicts with the mean of all targets as intercept",
      demo=P + """
r = np.random.RandomState(0)
n = 20
fs = lambda cols: BEEPFeatureMatrix([mk(i, {k: v[i] for k, v in cols.items()}) for i in range(n)])
def mk(i, d):
    f = CycleSummaryStats(None)
    f.paths = {"structured": "c%d" % i}; f.metadata = {}; f.linked_semiunique_id = "s%d" % i
    f.features = pd.DataFrame({k: [v] for k, v in d.items()})
    return f
a, b = r.rand(n), r.rand(n) * 9
X = fs({"a": a, "b": b})
e = BEEPLinearModelExperiment(X, fs({"t": 3 * a - b}), ["t::CycleSummaryStats"], "ridge")
e.train_and_score(0.6)
f = os.path.join(D, "m.json")
e.to_json_file(f)
p, _ = e.predict(X)
q, _ = BEEPLinearModelExperiment.from_json_file(f).predict(X)
assert np.allclose(p, q)
"""),
]
