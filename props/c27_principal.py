"""C27: principal components of capacity curves (pivot, decomposition, outliers)."""
from vc.harness import harness
from props.c26_intracell import swapped, close

PC = "beep.features.principal_components"

META = {
    "title": "Principal components describe and screen the discharge curves asked for",
    "statement": "The table to decompose has one row per file and requested cycle that the file's structured discharge data contains, files in the order given and cycles ascending, and one column per value of the pivot quantity in ascending order; each cell is the requested quantity of that file, cycle and pivot value, charge data never enters. A decomposition standardises every column with its mean and standard deviation over the rows and keeps the requested number of leading principal components: embeddings are the coordinates along them (up to the sign of a component), reconstructions are the rows rebuilt from them in original units, reconstruction errors the mean absolute differences per row, and the minimum number of components is the smallest whose explained variance exceeds the threshold. New rows are embedded and rebuilt with the training standardisation and components, the training table never changes. Decomposition outliers are exactly the rows with some whitened coordinate outside the requested percentiles of the training coordinates, with their distance to the training median; reconstruction outliers exactly the rows whose error exceeds the threshold times the largest training error.",
    "over": ["inputs"],
    "qtext": "every set of structured files, requested cycles and quantities, every data table, number of components, quantiles and thresholds",
    "why": "the tests compare one data set with recorded numbers and two fixed quantiles; order of files, missing cycles, charge rows and the boundary of each outlier rule are not sampled",
    "files": ["beep/features/principal_components.py"],
    "mechanism": [{"name": "pivot_data", "where": "beep/features/principal_components.py:203"},
                  {"name": "PrincipalComponents.fit", "where": "beep/features/principal_components.py:93"},
                  {"name": "PrincipalComponents.get_pca_decomposition_outliers", "where": "beep/features/principal_components.py:143"}],
    "observe": ["PrincipalComponents.data", "PrincipalComponents.embeddings", "PrincipalComponents.get_pca_embeddings", "PrincipalComponents.get_pca_decomposition_outliers",
                "PrincipalComponents.get_reconstruction_error_outliers", "beep.features.principal_components.pivot_data"],
    "level": "exploration",
    "level_note": "pivot: obligations discharged for all capacities at generated shapes of up to 2 files, 3 cycles and 3 pivot values (loading a file is a stand-in); decomposition and outliers: bounded stand-in on generated tables against numpy's singular value decomposition (sklearn is outside the verifier's reach)",
    "assumptions": ["pandas pivot and concat as documented on cells they only carry"],
    "bounded": ["pivot: 2 files, 3 cycles, 3 pivot values symbolic", "decomposition: tables of up to 30 rows and 12 columns with distinct singular values", "tables whose components never reach the explained variance threshold are not judged"],
}


class Run:
    def __init__(self, structured_data):
        self.structured_data = structured_data


@harness("C27", "pivot", conc=150, targets=[PC])
def h_pivot(H):
    import json
    import numpy as np
    m = H.mod(PC)
    nf = H.choice("files", [1, 2])
    files, want = {}, []
    asked = H.choice("asked", [[2, 5], [5], [1, 2, 5], [7, 2], None])
    aslist = H.choice("list of files", ["text", "file"])
    qty, piv = H.choice("quantities", [("discharge_capacity", "voltage"), ("discharge_energy", "voltage"), ("voltage", "discharge_capacity")])
    order = H.choice("order", [(0, 1), (1, 0)])
    grid = {0: [2.7, 3.1, 3.5], 1: [2.7, 3.1, 3.5]}
    for f in range(nf):
        have = H.choice("cycles of file %d" % f, [[1, 2, 5], [5, 2, 7]] if asked else [[10, 15, 100], [101, 90, 10]])
        rows = {"voltage": [], "discharge_capacity": [], "discharge_energy": [], "cycle_index": [], "step_type": []}
        cells = {}
        for c in have:
            for kind in ("discharge", "charge"):
                for x in (grid[f] if kind == "discharge" else [2.9, 3.1]):
                    v = H.real("q_%d_%d_%s_%s" % (f, c, kind, x), -10, 10)
                    for k in ("voltage", "discharge_capacity", "discharge_energy"):
                        rows[k].append(x if k == piv else v if k == qty else 0.5)
                    rows["cycle_index"].append(c)
                    rows["step_type"].append(kind)
                    if kind == "discharge":
                        cells[c, x] = v
        if f == 0 and len(order) and order[0] == 1:      # rows of the file in another order
            for k in rows:
                rows[k] = list(reversed(rows[k]))
        files["run%d.json" % f] = Run(H.pframe(rows))
        want.append((have, cells))
    names = ["run%d.json" % f for f in range(nf)]
    if nf == 2 and order == (1, 0):
        names.reverse()
        want.reverse()
    log = []

    def load(path, *a, **k):
        log.append(path)
        return files[path]
    H.cover("run")
    with swapped((m, "auto_load_processed", load), (H.mod("beep.structure.cli"), "auto_load_processed", load)):
        spec = {"file_list": names, "validity": ["valid"] * nf}
        spec = json.dumps(spec) if aslist == "text" else H.json_file(H.tmpdir() + "/files.json", spec)
        r = H.run(m.pivot_data, spec, qty, piv, np.array(asked)) if asked else H.run(m.pivot_data, spec, qty, piv)
    asked = asked or list(range(10, 101, 10))        # the documented default
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    t = r.value
    H.ensure("every file loaded once", log == names, log)
    exp = [[cells[c, x] for x in [2.7, 3.1, 3.5]] for have, cells in want for c in sorted(set(have) & set(asked))]
    H.ensure("one row per file and requested cycle", len(t) == len(exp), (len(t), len(exp)))
    H.ensure("pivot values as ascending columns", [float(x) for x in t.columns] == [2.7, 3.1, 3.5], list(t.columns))
    H.ensure("rows numbered", list(t.index) == list(range(len(exp))))
    for i, row in enumerate(exp):
        for j, v in enumerate(row):
            H.ensure("cell of its file, cycle and pivot value", H.eq(t.iloc[i, j], v), (i, j, t.iloc[i, j], v))


def aligned(got, want, tol=1e-6):
    """equal up to the sign of each column"""
    import numpy as np
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    s = np.sign((got * want).sum(axis=0))
    return np.allclose(got, want * s, rtol=tol, atol=tol)


@harness("C27", "decomposition", proof=False, conc=200, targets=[PC])
def h_dec(H):
    import json
    import numpy as np
    import pandas as pd
    import warnings
    warnings.simplefilter("ignore")
    rng = H.rng
    m = H.mod(PC)
    g = np.random.RandomState(rng.randrange(2 ** 31))
    whole = rng.random() < 0.25
    n, p = (20, 16) if whole else (rng.choice([6, 15, 30]), rng.choice([4, 8, 12]))
    X = g.normal(size=(n, p)) * (10 ** g.uniform(-1, 1, size=p)) + g.uniform(-5, 5, size=p)
    X = X + g.normal(size=(n, 1)) * g.uniform(0, 4, size=p)
    k = 15 if whole else rng.randint(2, min(n - 1, p))
    thr = 0.9 if whole else rng.choice([0.3, 0.5, 0.9])
    mu, sd = X.mean(axis=0), X.std(axis=0)
    Z = (X - mu) / sd
    U, S, V = np.linalg.svd(Z, full_matrices=False)
    if np.min(np.abs(np.diff(S))) < 1e-2 * S[0] / p or S[min(len(S), n - 1) - 1] < 1e-3:
        return
    ratio = np.cumsum(S ** 2)[:k] / (S ** 2).sum()
    if not (ratio > thr).any() or np.min(np.abs(ratio - thr)) < 1e-6:
        return
    volts = sorted({round(3 + 0.05 * j, 2) for j in range(p)})
    if whole:        # from files: two of ten cycles each
        runs, default = {}, rng.random() < 0.5
        every = np.linspace(20, 500, 20, dtype=int)[5:15] if default else np.arange(20, 30)
        for f in range(2):
            rows = [{"cycle_index": int(every[i]), "step_type": s, "voltage": v, "discharge_capacity": X[10 * f + i, j] if s == "discharge" else 99.0}
                    for i in range(10) for s in ("charge", "discharge") for j, v in enumerate(volts)]
            rows += [{"cycle_index": 300, "step_type": "discharge", "voltage": v, "discharge_capacity": 7.0} for v in volts]
            rng.shuffle(rows)
            runs["f%d.json" % f] = Run(pd.DataFrame(rows))
        with swapped((m, "auto_load_processed", lambda path, *a: runs[path]), (H.mod("beep.structure.cli"), "auto_load_processed", lambda path, *a: runs[path])):
            r = H.run(m.PrincipalComponents.from_interpolated_data, json.dumps({"file_list": ["f0.json", "f1.json"]}), name="mine", **({} if default else {"cycles_to_pca": every}))
        table = None
    else:
        table = pd.DataFrame(X, columns=volts, index=rng.choice([range(n), range(100, 100 + n)]))
        keep = table.copy()
        r = H.run(m.PrincipalComponents, table, name="mine", n_components=k, explained_variance_threshold=thr)
    H.ensure("no error", r.ok, r)
    pc = r.value
    H.ensure("name", pc.name == "mine")
    if table is not None:
        H.ensure("training table unchanged", table.equals(keep) and list(table.columns) == list(keep.columns))
    E = Z @ V[:k].T
    R = (E @ V[:k]) * sd + mu
    err = np.abs(R - X).mean(axis=1)
    H.ensure("table", np.allclose(np.asarray(pc.data, float), X))
    H.ensure("embeddings", aligned(pc.embeddings, E), (n, p, k))
    H.ensure("reconstructions", np.allclose(pc.reconstructions, R, rtol=1e-6, atol=1e-6))
    H.ensure("reconstruction errors", np.allclose(np.asarray(pc.reconstruction_errors), err, rtol=1e-6, atol=1e-8))
    H.ensure("smallest sufficient number of components", int(pc.min_components) == int(np.argmax(ratio > thr)) + 1, (pc.min_components, ratio, thr))
    # new data
    N = pd.DataFrame(X[g.randint(0, n, size=9)] + g.normal(size=(9, p)) * sd * g.uniform(0, 2, size=(9, 1)), columns=volts)
    keepn = N.copy()
    EN = ((N.values - mu) / sd) @ V[:k].T
    RN = (EN @ V[:k]) * sd + mu
    sgn = np.sign((np.asarray(pc.embeddings) * E).sum(axis=0))
    H.ensure("new rows embedded with the training fit", np.allclose(pc.get_pca_embeddings(N), EN * sgn, rtol=1e-6, atol=1e-6))
    H.ensure("rebuilt", np.allclose(pc.get_pca_reconstruction(EN * sgn), RN, rtol=1e-6, atol=1e-6))
    W, WN = E / E.std(axis=0), (EN - E.mean(axis=0)) / E.std(axis=0)
    up, lo = rng.choice([(95, 5), (100, 0), (80, 30)])
    # percentile limits are taken with the signs the fit chose
    W, WN = W * sgn, WN * sgn
    qu, ql = np.percentile(W, [up, lo], axis=0)
    if min(np.abs(WN - qu).min(), np.abs(WN - ql).min()) > 1e-6:
        r = H.run(pc.get_pca_decomposition_outliers, N, **({} if (up, lo) == (95, 5) and rng.random() < 0.5 else {"upper_quantile": up, "lower_quantile": lo}))
        H.ensure("outliers: no error", r.ok, r)
        dist, flags = r.value
        H.ensure("distance to the training median", np.allclose(dist, np.sqrt(((WN - np.median(W, axis=0)) ** 2).sum(axis=1)), rtol=1e-6, atol=1e-6))
        H.ensure("outliers: some coordinate outside the percentiles", list(map(bool, flags)) == [bool(x) for x in ((WN > qu) | (WN < ql)).any(axis=1)], (up, lo))
    t = rng.choice([1.5, 0.8, 3.0])
    en = np.abs(RN - N.values).mean(axis=1)
    if k < p and np.abs(en - err.max() * t).min() > 1e-9:
        r = H.run(pc.get_reconstruction_error_outliers, N, *(() if t == 1.5 else (t,)))
        H.ensure("reconstruction outliers: no error", r.ok, r)
        H.ensure("reconstruction error of new rows", np.allclose(np.asarray(r.value[0]), en, rtol=1e-6, atol=1e-8))
        H.ensure("reconstruction outliers", [bool(x) for x in r.value[1]] == [bool(x) for x in en > err.max() * t], (t, en, err.max()))
    H.ensure("new rows unchanged", N.equals(keepn))
