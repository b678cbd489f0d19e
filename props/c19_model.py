"""C19: linear model experiments and data splits use exactly the cleaned data, and predict what they were trained to."""
import math
import os

from vc.harness import harness
from vc.values import Sym, SymNum, and_, or_, not_, implies

MD = "beep.model"
SP = "beep.prediction.beep_data_splitter"
CMD = "beep.cmd"
NAN, INF = float("nan"), float("inf")

META = {
    "title": "Model experiments train and predict on exactly the cleaned data",
    "statement": "A linear model experiment keeps a feature exactly when the fraction of samples that have it reaches train_feature_drop_nan_thresh and then a sample exactly when the fraction of kept features it has reaches train_sample_drop_nan_thresh (infinite values count as missing), fills the remaining gaps with the column's median or mean as asked, and pairs each kept sample with its own targets; samples without target are dropped if allowed and refused otherwise, as are missing targets, too little data, unequal matrices, unknown models or strategies. predict() returns, for exactly the samples that have the required fraction of the trained features, intercept plus coefficients times the standardised features matched by name (order and additional columns do not matter), indexed by sample, and lists exactly the other samples as dropped; missing features and untrained experiments are refused; the matrices passed in are unchanged, so repeated predictions agree. A saved and reloaded experiment predicts the same. Reported errors are the documented metrics of the true against the predicted targets. The data splitter cleans and refuses the same way (also missing split or exclusion columns), keeps only samples whose exclusion flags all hold and only groups with enough such samples, and every fold partitions the samples into train and test with matching targets, each sample tested once, no group of split-column values divided; a saved splitter comes back with the same parameters and datasets. The train and predict commands apply the options given.",
    "over": ["inputs"],
    "qtext": "every feature and target matrix (any values, missing or infinite cells, column order, extra columns), thresholds, imputation strategies and targets",
    "why": "tests run four samples without gaps through default thresholds and check shapes only; values, gaps, extra features, repeated predictions and reloaded models are not compared",
    "files": ["beep/model.py", "beep/prediction/beep_data_splitter.py", "beep/cmd.py"],
    "mechanism": [{"name": "BEEPLinearModelExperiment.__init__ cleaning", "where": "beep/model.py:112"},
                  {"name": "BEEPLinearModelExperiment.predict", "where": "beep/model.py:296"},
                  {"name": "as_dict/from_dict", "where": "beep/model.py:455"},
                  {"name": "BEEPDataSplitter", "where": "beep/prediction/beep_data_splitter.py:94"},
                  {"name": "train, predict commands", "where": "beep/cmd.py:1150"}],
    "observe": ["BEEPLinearModelExperiment.X, .y, .train, .predict, .train_and_score, .to_json_file, .from_json_file", "BEEPDataSplitter.split, .to_json_file, .from_json_file"],
    "level": "proof",
    "level_note": "cleaning, prediction and splitting: obligations discharged for all real cell values on the real pandas code, per layout of missing cells, thresholds, column order (matrices up to 4 samples x 3 features, 6 samples for splits); training, scoring, files and commands: bounded stand-ins with the real sklearn against independent formulas",
    "assumptions": ["sklearn StandardScaler centres with the mean and divides by a function of the training column; KFold partitions positions (executed)", "pandas replace/dropna/fillna/align cells as on floats (real pandas executed on object columns of symbolic cells)"],
    "bounded": ["matrix sizes and missing-cell layouts enumerated", "features homogenised to the same name by different hyperparameters, and imputation of features missing in every predicted sample, are not judged"],
}


def FM(H, matrix):
    b = H.mod("beep.features.base").BEEPFeatureMatrix([])
    b.matrix = matrix
    return b


def gone(v):
    return isinstance(v, float) and (v != v or v in (INF, -INF))


def clean(H, cols, n, fthr, sthr, impute):
    """documented cleaning: (kept features, kept samples, filled values)"""
    keep = [c for c in cols if sum(not gone(v) for v in cols[c]) >= fthr * n]
    rows = [i for i in range(n) if sum(not gone(cols[c][i]) for c in keep) >= sthr * len(keep)]
    out = {}
    for c in keep:
        have = [cols[c][i] for i in rows if not gone(cols[c][i])]
        fill = NAN
        if have and impute != "none":
            fill = H.stat("median" if impute == "median" else "mean", have)
        out[c] = [fill if gone(cols[c][i]) else cols[c][i] for i in rows]
    return keep, rows, out


def same(H, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return H.eq(a, b)
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))


def frame_is(H, label, df, index, cols):
    H.ensure(label + ": samples", list(df.index) == list(index), (list(df.index), list(index)))
    H.ensure(label + ": columns", list(df.columns) == list(cols), (list(df.columns), list(cols)))
    for c in cols:
        for i, v in enumerate(cols[c]):
            H.ensure(label, same(H, list(df[c])[i], v), (c, i))


NAMES = ["cell_a.json", "cell_b.json", "cell_c.json", "cell_d.json", "cell_e.json", "cell_f.json"]
GAPS = {"none": [], "one": [(0, 1, NAN)], "inf": [(1, 2, INF), (2, 0, -INF)], "column": [(1, 0, NAN), (1, 1, NAN), (1, 3, INF)], "half": [(2, 0, NAN), (2, 1, NAN)],
        "row": [(0, 2, NAN), (1, 2, NAN)], "both": [(0, 0, NAN), (0, 1, NAN), (1, 1, NAN), (2, 3, NAN)]}


@harness("C19", "cleaning", conc=200, targets=[MD], budget=250)
def h_clean(H):
    n = 4
    m = H.mod(MD)
    gaps = H.choice("gaps", sorted(GAPS))
    fthr, sthr = H.choice("thresholds", [(0.95, 0.5), (0.5, 0.5), (0.25, 1.0), (0.75, 0.6)])
    impute, tgap, hom, nt = H.choice("setting", [("median", "whole", True, 1), ("mean", "drop", True, 2), ("median", "refuse", False, 1), ("mean", "inf", False, 2)])
    F = ["f%d::Some::h%d" % (j, j) for j in range(3)]
    T = ["t%d::Target::k" % j for j in range(2)]
    cols = {f: [H.real("x%d_%d" % (j, i), -100, 100) for i in range(n)] for j, f in enumerate(F)}
    for j, i, v in GAPS[gaps]:
        cols[F[j]][i] = v
    ys = {t: [1.5 * i + j for i in range(n)] for j, t in enumerate(T)}
    if tgap != "whole":
        ys[T[0]][1] = INF if tgap == "inf" else NAN
    X, Y = FM(H, H.pframe(cols, index=NAMES[:n])), FM(H, H.pframe(ys, index=NAMES[:n]))
    strip = (lambda c: "::".join(c.split("::")[:2])) if hom else (lambda c: c)
    targets = [strip(T[0])] if nt == 1 else [strip(t) for t in T]
    H.cover("run")
    r = H.run(m.BEEPLinearModelExperiment, X, Y, targets, "elasticnet", train_feature_drop_nan_thresh=fthr, train_sample_drop_nan_thresh=sthr, impute_strategy=impute, drop_nan_training_targets=tgap != "refuse", homogenize_features=hom)
    keep, rows, filled = clean(H, cols, n, fthr, sthr, impute)
    bad = len(rows) < 2 or len(keep) < 1
    lost = [i for i in rows if gone(ys[T[0]][i])]
    if not bad and lost and tgap == "refuse":
        bad = True
    left = [i for i in rows if i not in lost]
    if len(left) < 2:
        bad = True
    if bad:
        H.ensure("too little data or missing targets refused", not r.ok and type(r.exc).__name__ == "BEEPMLExperimentError", r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    e = r.value
    frame_is(H, "training features", e.X, [NAMES[i] for i in left], {strip(f): [filled[f][rows.index(i)] for i in left] for f in keep})
    frame_is(H, "training targets", e.y, [NAMES[i] for i in left], {t: [ys[T[j]][i] for i in left] for j, t in enumerate(targets)})
    H.ensure("feature labels", e.feature_labels == [strip(f) for f in keep] and e.targets == targets)
    H.ensure("matrices unchanged", list(X.matrix.columns) == F and list(Y.matrix.columns) == T and list(X.matrix.index) == NAMES[:n])


@harness("C19", "refusals", conc=40, targets=[MD])
def h_refuse(H):
    m = H.mod(MD)
    cols = {"f%d::S::h" % j: [H.real("x%d%d" % (j, i), -1, 1) for i in range(3)] for j in range(2)}
    X, Y = H.pframe(cols, index=NAMES[:3]), H.pframe({"t::T::h": [1.0, 2.0, 3.0], "u::T::h": [1.0, 2.0, 3.0]}, index=NAMES[:3])
    why = H.choice("why", ["model", "no target", "unknown target", "unequal", "multi ridge", "impute", "untrained"])
    a = [FM(H, X), FM(H, Y), ["t::T"], "lasso"]
    k = {}
    exc = "BEEPMLExperimentError"
    if why == "model":
        a[3], exc = "svm", "ValueError"
    elif why == "no target":
        a[2], exc = [], "ValueError"
    elif why == "unknown target":
        a[2] = ["t::T", "w::T"]
    elif why == "unequal":
        a[1] = FM(H, Y.iloc[:2])
    elif why == "multi ridge":
        a[2], a[3] = ["t::T", "u::T"], "ridge"
    elif why == "impute":
        k, exc = {"impute_strategy": "mode"}, "ValueError"
    r = H.run(m.BEEPLinearModelExperiment, *a, **k)
    H.cover("run")
    if why != "untrained":
        H.ensure("refused", not r.ok and type(r.exc).__name__ == exc, (why, r))
        return
    H.ensure("no error", r.ok, r)
    q = H.run(r.value.predict, FM(H, X))
    H.ensure("prediction without training refused", not q.ok and type(q.exc).__name__ == "BEEPMLExperimentError", q)
    q = H.run(r.value.as_dict)
    H.ensure("saving without training refused", not q.ok and isinstance(q.exc, ValueError), q)


class Linear:
    """a trained sklearn linear model: intercept + X . coef"""
    def __init__(self, H, coef, intercept):
        self.H, self.c, self.b = H, coef, intercept

    def predict(self, X):
        import numpy as np
        out = np.empty((len(X), len(self.b)), dtype=object)
        for i, x in enumerate(X):
            for t in range(len(self.b)):
                s = self.b[t]
                for j, v in enumerate(list(x)):
                    s = s + self.c[t][j] * v
                out[i, t] = s
        return out


class Scale:
    """a fitted standard scaler with arbitrary centre and (nonzero) width per feature"""
    def __init__(self, names, centre, factor):
        self.names, self.centre, self.factor = names, centre, factor

    def transform(self, X):
        import numpy as np
        out = np.empty(X.shape, dtype=object)
        for i in range(X.shape[0]):
            for j in range(X.shape[1]):
                out[i, j] = ((X.iloc[i, j] if hasattr(X, "iloc") else X[i, j]) - self.centre[j]) * self.factor[j]
        return out


PGAPS = {"none": [], "one": [(0, 1, NAN)], "two": [(0, 0, NAN), (1, 0, INF)], "all-of-one": [(0, 2, NAN), (1, 2, -INF), (2, 2, NAN)], "mixed": [(0, 0, INF), (1, 0, NAN), (2, 1, NAN)]}


@harness("C19", "prediction", conc=150, targets=[MD], budget=250)
def h_predict(H):
    m = H.mod(MD)
    hom, multi, hashes, frame, missing = H.choice("setting", [(True, False, True, False, False), (True, True, False, True, False), (False, False, False, False, False), (False, True, False, True, False), (True, False, False, True, True), (False, False, False, False, True)])
    F = ["f%d::Some" % j if hom else "f%d::Some::h" % j for j in range(3)]
    T = ["t%d::T" % j if hom else "t%d::T::h" % j for j in range(2 if multi else 1)]
    X0 = H.pframe({"f%d::Some::h" % j: [0.5 * j, 1.0 + j, 2.0 - j, 0.25] for j in range(3)}, index=NAMES[:4])
    Y0 = H.pframe({"t%d::T::h" % j: [1.0, 2.0, 3.0, 4.0] for j in range(2)}, index=NAMES[:4])
    thr = H.choice("threshold", [0.75, 0.5, 0.3])
    impute = H.choice("impute", ["median", "mean"])
    e = m.BEEPLinearModelExperiment(FM(H, X0), FM(H, Y0), T, "elasticnet", homogenize_features=hom, predict_sample_nan_thresh=thr, impute_strategy=impute)
    coef = [[H.real("c%d%d" % (t, j), -10, 10) for j in range(3)] for t in range(len(T))]
    b = [H.real("b%d" % t, -10, 10) for t in range(len(T))]
    centre, factor = [0.5, -1.25, 2.0], [2.0, 0.5, 4.0]
    e.model, e.scaler = Linear(H, coef, b), Scale(F, centre, factor)
    n = 3
    cols = {}
    vals = {}
    gaps = H.choice("gaps", sorted(PGAPS))
    for j in range(3):
        vals[j] = [H.real("x%d_%d" % (j, i), -100, 100) for i in range(n)]
        for jj, i, v in PGAPS[gaps]:
            if jj == j:
                vals[j][i] = v
    order, extra = H.choice("columns", [((0, 1, 2), 0), ((2, 0, 1), 3)])
    for j in order:
        if not (missing and j == 1):
            cols["f%d::Some::%s" % (j, "other" if hashes else "h")] = vals[j]      # other hyperparameters, other hash
    for k in range(extra):
        cols["g%d::Some::h" % k] = [NAN if k else 1.0] * n
    df = H.pframe(cols, index=NAMES[3:3 + n])
    arg = df if frame else FM(H, df)
    H.cover("run")
    r = H.run(e.predict, arg)
    if missing:
        H.ensure("missing features refused", not r.ok and type(r.exc).__name__ == "BEEPMLExperimentError", r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    keep = [i for i in range(n) if sum(not gone(vals[j][i]) for j in range(3)) >= thr * 3]
    if any(all(gone(vals[j][i]) for i in keep) for j in range(3)):
        return
    filled = {}
    for j in range(3):
        fill = H.stat(impute, [vals[j][i] for i in keep if not gone(vals[j][i])])
        filled[j] = [fill if gone(vals[j][i]) else vals[j][i] for i in range(n)]
    want = {t: [] for t in T}
    for t, tn in enumerate(T):
        for i in keep:
            s = b[t]
            for j in range(3):
                s = s + coef[t][j] * ((filled[j][i] - centre[j]) * factor[j])
            want[tn].append(s)
    for k in range(2):
        y, dropped = r.value
        frame_is(H, "predictions", y, [NAMES[3 + i] for i in keep], want)
        H.ensure("dropped samples", list(dropped) == [NAMES[3 + i] for i in range(n) if i not in keep], dropped)
        H.ensure("matrix unchanged", list(df.columns) == list(cols) and list(df.index) == NAMES[3:3 + n])
        if k == 0:
            r = H.run(e.predict, arg)
            H.ensure("repeated prediction", r.ok, r)


# ---------------------------------------------------------------- splits
@harness("C19", "splitting", conc=150, targets=[SP], budget=250)
def h_split(H):
    n = 6
    gaps = H.choice("gaps", ["none", "one", "column"])
    fthr, sthr = H.choice("thresholds", [(0.75, 0.5), (0.5, 0.6)])
    impute = H.choice("impute", ["median", "mean"])
    by = H.choice("split by", [None, ("p",), ("p", "q")])
    ex = H.choice("exclusion", [None, ("ok1",), ("ok1", "ok2")])
    share = H.choice("share", [0.5, 0.75])
    F = ["f%d::S" % j for j in range(2)]
    cols = {f: [H.real("x%d_%d" % (j, i), -100, 100) for i in range(n)] for j, f in enumerate(F)}
    if gaps == "one":
        cols[F[0]][1] = NAN
    if gaps == "column":
        cols[F[1]][:4] = [NAN, NAN, INF, NAN]
    prot = {"p": [1.0, 1.0, 1.05, 1.05, 3.0, 3.0], "q": [1.0, 2.0, 1.0, 1.0, 1.0, 1.0]}
    flag = {"ok1": [True, False, True, True, True, True], "ok2": [True, True, False, True, True, False]}
    allc = {f + "::h1": v for f, v in cols.items()}
    allc["t::T::h2"] = [10.0, 20.0, 30.0, NAN if H.choice("target gap", [False, True]) else 40.0, 50.0, 60.0]
    tv = allc["t::T::h2"]
    for k, v in prot.items():
        allc["%s::P::h" % k] = v
    for k, v in flag.items():
        allc["%s::E::h" % k] = v
    X = FM(H, H.pframe(allc, index=NAMES))
    nf = H.choice("folds", [2, 3])
    splitc = None if by is None else ["%s::P" % c for c in by]
    exc = None if ex is None else ["%s::E" % c for c in ex]
    # specification
    ret = dict(cols)
    for c in by or ():
        ret["%s::P" % c] = prot[c]
    for c in ex or ():
        ret["%s::E" % c] = flag[c]
    keep = [c for c in ret if sum(not gone(v) for v in ret[c]) >= fthr * n]
    rows = [i for i in range(n) if sum(not gone(ret[c][i]) for c in keep) >= sthr * len(keep)]
    fl = {}
    for c in keep:
        if c in cols:
            have = [ret[c][i] for i in rows if not gone(ret[c][i])]
            fill = H.stat(impute, have)
            fl[c] = {i: fill if gone(ret[c][i]) else ret[c][i] for i in rows}
    inc = [i for i in rows if all(flag[c][i] for c in ex or ())]
    group = {i: tuple(prot[c][i] for c in by or ()) for i in rows}
    if ex and by:
        inc = [i for i in inc if sum(group[k] == group[i] for k in inc) / sum(group[k] == group[i] for k in rows) >= share]
    H.cover("run")
    m = H.mod(SP)
    r = H.run(m.BEEPDataSplitter, X, F, ["t::T"], train_feature_drop_nan_thresh=fthr, train_sample_drop_nan_thresh=sthr, impute_strategy=impute, n_splits=nf, split_columns=splitc, exclusion_columns=exc, drop_split_threshold=share)
    left = [i for i in inc if not gone(tv[i])]
    if len(left) < 2:
        H.ensure("too little data refused", not r.ok and type(r.exc).__name__ == "BEEPDataSplitterError", r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    feats = [f for f in F if f in keep]
    H.ensure("features kept", r.value.feature_labels == feats, r.value.feature_labels)
    units = len(left) if by is None else len({group[i] for i in left})
    q = H.run(r.value.split)
    if units < nf:
        H.ensure("more folds than samples refused", not q.ok, q)
        return
    H.ensure("no error", q.ok, q)
    ds = q.value
    H.ensure("number of folds", len(ds) == nf)
    tested = []
    for d in ds:
        tr, te = list(d.train_X.index), list(d.test_X.index)
        H.ensure("each fold partitions the samples", sorted(tr + te) == [NAMES[i] for i in left] and len(te) > 0, (tr, te))
        tested += te
        if by is not None:
            H.ensure("groups are not divided", not {group[NAMES.index(s)] for s in tr} & {group[NAMES.index(s)] for s in te}, (tr, te))
        for fr, y, ix in ((d.train_X, d.train_y, tr), (d.test_X, d.test_y, te)):
            frame_is(H, "features of the fold", fr, ix, {f: [fl[f][NAMES.index(s)] for s in ix] for f in feats})
            frame_is(H, "targets of the fold", y, ix, {"t::T": [tv[NAMES.index(s)] for s in ix]})
    H.ensure("every sample tested once", sorted(tested) == [NAMES[i] for i in left], tested)


@harness("C19", "splitter_refusals", conc=60, targets=[SP])
def h_split_refuse(H):
    m = H.mod(SP)
    why = H.choice("why", ["feature", "target", "split column", "exclusion column", "impute", "target gap refused", "target gap dropped", "two samples", "one sample", "no feature left", "one target left"])
    n = {"two samples": 2, "one sample": 1}.get(why, 4)
    cols = {"f%d::S::h" % j: [H.real("x%d%d" % (j, i), -1, 1) for i in range(n)] for j in range(2)}
    cols["t::T::h"] = [1.0, 2.0, 3.0, 4.0][:n]
    cols["p::P::h"] = [1.0, 2.0, 2.0, 1.0][:n]
    if why.startswith("target gap"):
        cols["t::T::h"][1] = NAN
    if why == "one target left":
        cols["t::T::h"] = [NAN, NAN, 3.0, NAN]
    if why == "no feature left":
        cols["f0::S::h"] = cols["f1::S::h"] = [NAN, NAN, NAN, 1.0]
    X = FM(H, H.pframe(cols, index=NAMES[:n]))
    F, T, k = ["f0::S", "f1::S"], ["t::T"], {}
    if why == "feature":
        F = F + ["g::S"]
    if why == "target":
        T = ["w::T"]
    if why == "split column":
        k["split_columns"] = ["q::P"]
    if why == "exclusion column":
        k["exclusion_columns"] = ["ok::E"]
    if why == "impute":
        k["impute_strategy"] = "mode"
    if why == "target gap refused":
        k["drop_nan_training_targets"] = False
    H.cover("run")
    r = H.run(m.BEEPDataSplitter, X, F, T, **k)
    if why in ("target gap dropped", "two samples"):
        H.ensure("accepted", r.ok, (why, r))
        want = NAMES[:n] if why == "two samples" else [NAMES[0], NAMES[2], NAMES[3]]
        if r.ok:
            H.ensure("samples kept", list(r.value.X.index) == want and list(r.value.y.index) == want, (list(r.value.X.index), list(r.value.y.index)))
        return
    H.ensure("refused", not r.ok and type(r.exc).__name__ == ("ValueError" if why == "impute" else "BEEPDataSplitterError"), (why, r))


# ---------------------------------------------------------------- bounded: training, files, commands
def matrix(H, names, cols):
    """a real feature matrix (featurizers, so that it can be saved)"""
    import pandas as pd
    b = H.mod("beep.features.base")
    mk = H.mod("beep.features.core").CycleSummaryStats
    fs = []
    for i, nme in enumerate(names):
        f = mk(None)
        f.paths = {"structured": nme}
        f.metadata = {}
        f.linked_semiunique_id = "s%d" % i
        f.features = pd.DataFrame({c: [v[i]] for c, v in cols.items()})
        fs.append(f)
    return b.BEEPFeatureMatrix(fs)


def train_matrices(H, n, k, gaps=True):
    rng = H.rng
    names = ["/data/run_%d.json" % i for i in range(n)]
    cols = {"f%d" % j: [rng.uniform(-5, 5) * 10 ** j for _ in range(n)] for j in range(k)}
    if gaps:
        for _ in range(rng.randint(0, n // 3)):
            cols["f%d" % rng.randrange(k)][rng.randrange(n)] = rng.choice([NAN, INF])
    ys = {"t0": [2.0 + sum(cols["f%d" % j][i] * (j + 1) / 10 ** j for j in range(k) if not gone(cols["f%d" % j][i])) for i in range(n)], "t1": [rng.uniform(0, 1) + 0.1 * i for i in range(n)]}
    return names, cols, ys


def coefs(e):
    import numpy as np
    return np.atleast_2d(e.model.coef_), np.atleast_1d(e.model.intercept_)


@harness("C19", "training", proof=False, conc=8, targets=[MD], thorough_conc=40)
def h_train(H):
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    rng = H.rng
    n, k = rng.randint(10, 16), rng.randint(1, 3)
    names, cols, ys = train_matrices(H, n, k)
    if rng.random() < 0.5:
        ys["t0"][rng.randrange(n)] = NAN
    X, Y = matrix(H, names, cols), matrix(H, names, ys)
    T = ["t0::CycleSummaryStats", "t1::CycleSummaryStats"]
    name = rng.choice(["elasticnet", "ridge", "lasso", "multi"])
    targets = T if name == "multi" else T[:1]
    kw = dict(kfold=2, drop_nan_training_targets=True, train_feature_drop_nan_thresh=0.5)
    if rng.random() < 0.5:
        kw.update(max_iter=1000)
    if rng.random() < 0.3:
        kw.update(alphas=[0.01, 0.5])
    if name in ("elasticnet", "multi"):
        kw.update(l1_ratio=[0.5, 1.0])
    e = H.mod(MD).BEEPLinearModelExperiment(X, Y, targets, "elasticnet" if name == "multi" else name, **kw)
    part = rng.random() < 0.5
    r = H.run(e.train_and_score, 0.7) if part else H.run(e.train)
    H.ensure("no error", r.ok, r)
    H.ensure("experiment holds the model", r.value[0] is e.model)
    if "alphas" in kw:
        H.ensure("alpha among those given", e.optimal_hyperparameters["alpha"] in kw["alphas"])
    c, b = coefs(e)
    if not part:
        Z = e.X.to_numpy(float)
        Z = (Z - Z.mean(axis=0)) / np.where(Z.std(axis=0) == 0, 1, Z.std(axis=0))
        P = Z @ c.T + b
        for t, tn in enumerate(targets):
            yt = e.y[tn].to_numpy(float)
            res = yt - P[:, t]
            ref = {"rmse": math.sqrt((res ** 2).mean()), "mae": abs(res).mean(), "max_error": abs(res).max(), "r2": 1 - (res ** 2).sum() / ((yt - yt.mean()) ** 2).sum()}
            for k_, v in ref.items():
                g = r.value[1][k_][tn] if name == "multi" else r.value[1][k_]
                H.ensure("training %s" % k_, abs(g - v) <= 1e-6 * max(1, abs(v)), (k_, g, v))
    else:
        H.ensure("test errors reported", set(r.value[2]) == {"rmse", "mae", "r2", "max_error"})
    p0 = H.run(e.predict, X)
    H.ensure("no error", p0.ok, p0)
    d = H.tmpdir()
    path = os.path.join(d, "model.json")
    q = H.run(e.to_json_file, path)
    H.ensure("saved", q.ok, q)
    for how in (H.mod(MD).BEEPLinearModelExperiment.from_json_file, None):
        if how is None:
            from monty.serialization import loadfn
            how = loadfn
        q = H.run(how, path)
        H.ensure("reloaded", q.ok, q)
        p1 = H.run(q.value.predict, X)
        H.ensure("no error", p1.ok, p1)
        H.ensure("reloaded model predicts the same samples", list(p0.value[0].index) == list(p1.value[0].index) and list(p0.value[0].columns) == list(p1.value[0].columns) and list(p0.value[1]) == list(p1.value[1]))
        H.ensure("reloaded model predicts the same", np.allclose(p0.value[0].to_numpy(float), p1.value[0].to_numpy(float), rtol=1e-8, atol=1e-8), (p0.value[0].iloc[0].tolist(), p1.value[0].iloc[0].tolist()))
        H.ensure("hyperparameters", q.value.optimal_hyperparameters == e.optimal_hyperparameters and q.value.targets == e.targets and q.value.feature_labels == e.feature_labels)
        for a in ("model_name", "train_feature_drop_thresh", "train_sample_drop_thresh", "predict_sample_nan_thresh", "drop_nan_training_targets", "impute_strategy", "kfold", "max_iter", "tol", "homogenize_features"):
            H.ensure("parameters", getattr(q.value, a) == getattr(e, a), a)


@harness("C19", "splitter_file", proof=False, conc=12, targets=[SP])
def h_spfile(H):
    import numpy as np
    rng = H.rng
    n = 8
    names, cols, ys = train_matrices(H, n, 2)
    cols = dict(cols, t=ys["t0"], ok=[i != 3 for i in range(n)], p=[float(i // 2) for i in range(n)])
    X = matrix(H, names, cols)
    c = "::CycleSummaryStats"
    kw = dict(n_splits=rng.choice([2, 3]), random_state=rng.randint(0, 99), impute_strategy=rng.choice(["mean", "median"]), split_columns=rng.choice([None, ["p" + c]]), exclusion_columns=rng.choice([None, ["ok" + c]]), drop_split_threshold=rng.choice([0.5, 0.75]),
              train_feature_drop_nan_thresh=0.4, train_sample_drop_nan_thresh=0.4)
    s = H.mod(SP).BEEPDataSplitter(X, ["f0" + c, "f1" + c], ["t" + c], **kw)
    path = os.path.join(H.tmpdir(), "s.json")
    r = H.run(s.to_json_file, path)
    H.ensure("saved", r.ok, r)
    r = H.run(H.mod(SP).BEEPDataSplitter.from_json_file, path)
    H.ensure("reloaded", r.ok, r)
    t = r.value
    for k, v in kw.items():
        H.ensure("parameter kept", getattr(t, k) == v, (k, getattr(t, k), v))
    H.ensure("cleaned data kept", list(t.X.index) == list(s.X.index) and np.allclose(t.X[s.feature_labels].to_numpy(float), s.X[s.feature_labels].to_numpy(float)) and np.allclose(t.y.to_numpy(float), s.y.to_numpy(float)))
    H.ensure("datasets kept", len(t.datasets) == len(s.datasets))
    for k in range(2):
        for a, b in zip(s.datasets, t.datasets):
            for f in ("train_X", "train_y", "test_X", "test_y"):
                u, v = getattr(a, f), getattr(b, f)
                H.ensure("datasets kept", list(u.index) == list(v.index) and list(u.columns) == list(v.columns) and np.allclose(u.to_numpy(float), v.to_numpy(float)), f)
        if k == 0:
            H.ensure("split again", H.run(t.split).ok)


@harness("C19", "commands", proof=False, conc=6, targets=[CMD, MD], thorough_conc=20)
def h_cmd(H):
    import numpy as np
    import warnings
    from click.testing import CliRunner
    from monty.serialization import dumpfn, loadfn
    warnings.simplefilter("ignore")
    rng = H.rng
    n = 12
    names, cols, ys = train_matrices(H, n, 2, gaps=False)
    if rng.random() < 0.5:
        cols["f1"][0] = NAN
    d = H.tmpdir()
    fm, tm, out = [os.path.join(d, x) for x in ("f.json", "t.json", "m.json")]
    X = matrix(H, names, cols)
    dumpfn(X, fm)
    dumpfn(matrix(H, names, ys), tm)
    name = rng.choice(["ridge", "lasso", "elasticnet"])
    args = ["train", "-fm", fm, "-tm", tm, "-t", "t0::CycleSummaryStats", "-m", name, "-o", out]
    want = {}
    if rng.random() < 0.6:
        args += ["-al", "0.25", "-au", "1.25", "-an", "3"]
        want["alphas"] = [0.25, 0.75, 1.25]
    for opt, attr, v in [("--train-feature-nan-thresh", "train_feature_drop_thresh", 0.8), ("--train-sample-nan-thresh", "train_sample_drop_thresh", 0.4), ("--predict-sample-nan-thresh", "predict_sample_nan_thresh", 0.6), ("--impute-strategy", "impute_strategy", "mean"),
                         ("--kfold", "kfold", 3), ("--max-iter", "max_iter", 5000), ("--tol", "tol", 0.001)]:
        if rng.random() < 0.5:
            args += [opt, str(v)]
            want[attr] = v
    if rng.random() < 0.5:
        args += ["--l1-ratios", "0.5,1.0"]
        want["l1_ratio"] = [0.5, 1.0]
    old = os.getcwd()
    os.chdir(d)
    try:
        r = CliRunner().invoke(H.mod(CMD).cli, ["--output-status-json", os.path.join(d, "st.json")] + args)
        H.ensure("command succeeds", r.exit_code == 0, (r.output[-300:], r.exception))
        st = loadfn(os.path.join(d, "st.json"))
        H.ensure("model written", os.path.exists(out), st)
        e = loadfn(out)
        for k, v in want.items():
            H.ensure("option applied", getattr(e, k) == v, (k, getattr(e, k), v))
        pa = ["predict", out, "-fm", fm, "-o", os.path.join(d, "p.json")]
        thr = rng.choice([None, 0.0, 1.0])
        if thr is not None:
            pa += ["--predict-sample-nan-thresh", str(thr)]
        r = CliRunner().invoke(H.mod(CMD).cli, pa)
        H.ensure("command succeeds", r.exit_code == 0 and os.path.exists(os.path.join(d, "p.json")), (r.output[-300:], r.exception))
        if rng.random() < 0.5:
            r = CliRunner().invoke(H.mod(CMD).cli, args[:11] + ["-al", "0.1"])
            H.ensure("incomplete alpha range refused", r.exit_code != 0, r.output[-200:])
    finally:
        os.chdir(old)
    p = loadfn(os.path.join(d, "p.json"))["t0::CycleSummaryStats"]
    if thr is not None:
        e.predict_sample_nan_thresh = thr
    y, dropped = e.predict(X)
    H.ensure("predictions written", set(p) == set(map(str, y.index)) and all(abs(p[str(k)] - v) <= 1e-6 * max(1, abs(v)) for k, v in y["t0::CycleSummaryStats"].items()), str(p)[:200])
    H.ensure("threshold applied", (len(p) == n) if thr == 0.0 else (len(p) == sum(not any(gone(c[i]) for f, c in cols.items() if f + "::CycleSummaryStats" in e.feature_labels) for i in range(n))) if thr == 1.0 else True, len(p))
