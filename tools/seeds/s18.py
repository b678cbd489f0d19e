F = "beep/features/principal_components.py"
P = """
import json, warnings
warnings.simplefilter("ignore")
import numpy as np, pandas as pd
import beep.features.principal_components as m
g = np.random.RandomState(3)
X = pd.DataFrame(g.normal(size=(12, 5)) * [1, 2, 3, 4, 5] + g.normal(size=(12, 1)))
"""
SEEDS = [
 dict(id="c27-whitened-by-itself", property="C27",
      edits=[(F, """        white_embeddings = (embeddings - np.mean(self.embeddings, axis=0)) / np.std(
            self.embeddings, axis=0
        )
        distances""", """        white_embeddings = (embeddings - np.mean(embeddings, axis=0)) / np.std(
            self.embeddings, axis=0
        )
        distances""")],
      needs="new rows whose mean differs from the training rows", breaks="a batch that is off as a whole is not flagged as outliers",
      demo=P + """
pc = m.PrincipalComponents(X, n_components=3, explained_variance_threshold=0.3)
d, o = pc.get_pca_decomposition_outliers(X + 1000.0)
assert o.all() and (d > 10).all(), (d, o)
"""),
 dict(id="c27-error-limit-of-batch", property="C27",
      edits=[(F, "            reconstruction_errors > max(self.reconstruction_errors) * threshold,",
              "            reconstruction_errors > max(max(self.reconstruction_errors), reconstruction_errors.mean()) * threshold,")],
      needs="a batch of rows that are all badly reconstructed", breaks="rows with errors above the training limit are not reported when the whole batch is bad",
      demo=P + """
pc = m.PrincipalComponents(X, n_components=2, explained_variance_threshold=0.3)
Y = pd.DataFrame(g.normal(size=(6, 5)) * 100)
e, o = pc.get_reconstruction_error_outliers(Y, threshold=1.5)
assert (np.asarray(o) == (np.asarray(e) > max(pc.reconstruction_errors) * 1.5)).all(), (list(e), list(o))
"""),
 dict(id="c27-later-files-first", property="C27",
      edits=[(F, """        df_to_pca = pd.concat([
                df_to_pca,
                df.pivot(index="cycle_index", columns=pivot_column, values=qty_to_pca)
            ], ignore_index=True)""", """        df_to_pca = pd.concat([
                df.pivot(index="cycle_index", columns=pivot_column, values=qty_to_pca),
                df_to_pca
            ], ignore_index=True)""")],
      needs="more than one file", breaks="rows no longer follow the order of the file list, so embeddings are attributed to other files",
      demo=P + """
def frame(q):
    return type("R", (), {"structured_data": pd.DataFrame({"step_type": "discharge", "cycle_index": [10, 10, 20, 20], "voltage": [3.0, 3.1] * 2, "discharge_capacity": [q, q + 1, q + 2, q + 3]})})
runs = {"a": frame(0.0), "b": frame(100.0)}
m.auto_load_processed = lambda f: runs[f]
t = m.pivot_data(json.dumps({"file_list": ["a", "b"]}))
assert t.values.tolist() == [[0, 1], [2, 3], [100, 101], [102, 103]], t
"""),
 dict(id="c27-minimum-components", property="C27",
      edits=[(F, """                    np.cumsum(self.pca.explained_variance_ratio_)
                    > self.explained_variance_threshold""", """                    np.cumsum(np.sort(self.pca.explained_variance_ratio_ / np.sum(self.pca.explained_variance_ratio_))[::-1])
                    > self.explained_variance_threshold""")],
      needs="fewer components kept than columns, with variance left over", breaks="the minimum number of components is too small for the requested share of the variance",
      demo=P + """
pc = m.PrincipalComponents(X, n_components=4, explained_variance_threshold=0.8)
r = np.cumsum(pc.pca.explained_variance_ratio_)
for thr in np.linspace(0.3, r[-1] - 1e-6, 60):
    q = m.PrincipalComponents(X, n_components=4, explained_variance_threshold=thr)
    assert q.min_components == int(np.argmax(r > thr)) + 1, (thr, q.min_components, r)
"""),
]
