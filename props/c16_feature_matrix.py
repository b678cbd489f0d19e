"""C16: feature objects and their assembly into a feature matrix."""
from vc.harness import harness
from vc.values import and_, or_, not_, implies

F = "beep.features.base"
A = "beep.structure.arbin"

META = {
    "title": "The feature matrix holds each feature of each file in its own cell",
    "statement": "A feature matrix built from featurizers has exactly one row per structured file and exactly one column per feature name, featurizer class and hyperparameter values; every cell holds the value that featurizer computed for that file and is missing if it was not computed there. Column names do not depend on the order of featurizers, files or hyperparameters, and different hyperparameters give different columns. The same featurizer with the same hyperparameters applied twice to the same file is refused, and so are featurizers without features, with more or less than one row of features, or not linked to a structured file; the featurizers' own feature tables are left unchanged. A featurizer takes the default hyperparameters when none are given, refuses an incomplete set, refuses an unstructured run, and takes over the run's paths, metadata and identity. Saving and loading featurizers and matrices keeps features, hyperparameters, paths, metadata, identity and the matrix; features not yet created cannot be saved.",
    "over": ["inputs", "histories"],
    "qtext": "every set of featurizers, feature values, hyperparameters and files, in any order",
    "why": "tests build one matrix from a few recorded files; other orders, partial coverage of files, collisions and value placement are not checked exhaustively",
    "files": ["beep/features/base.py"],
    "mechanism": [{"name": "BEEPFeatureMatrix.__init__", "where": "beep/features/base.py:210"},
                  {"name": "BEEPFeaturizer.__init__ / as_dict / from_dict", "where": "beep/features/base.py:60"}],
    "observe": ["beep.features.base.BEEPFeatureMatrix.matrix", "BEEPFeaturizer.from_json_file", "BEEPFeatureMatrix.from_json_file"],
    "level": "proof",
    "level_note": "placement, naming, refusals and dictionary round trips: obligations discharged for all feature values (the cells are symbolic, carried through the real pandas code), for combinations of 1-3 files x 2 featurizer classes x 2 hyperparameter sets in both orders; json files: bounded stand-in",
    "assumptions": ["pandas carries cell values unchanged through concat, column selection and relabelling (real pandas executed on symbolic cells)"],
    "bounded": ["numbers of files (3), classes (2) and hyperparameter sets (2) per matrix in the discharged obligations; up to 8 x 3 x 2 in the generated ones"],
}


def classes(H):
    Base = H.mod(F).BEEPFeaturizer
    out = []
    for nm, dflt in (("FzA", {"p": 1, "q": [1, 2]}), ("FzB", {"z": "s"}), ("FzC", {})):
        c = type(nm, (Base,), {"DEFAULT_HYPERPARAMETERS": dflt, "validate": lambda self: (True, None), "create_features": lambda self: None,
                               "__module__": __name__})
        globals()[nm] = c
        out.append(c)
    return out


def make(H, cls, hyper, path, feats):
    import pandas as pd
    f = cls(None, hyper)
    f.paths = {"structured": path} if path else {}
    f.metadata = {"barcode": "b"}
    f.linked_semiunique_id = "id"
    f.features = pd.DataFrame({k: pd.Series([v], dtype=object if H.sym else None) for k, v in feats.items()}) if feats is not None else None
    return f


HY = {0: [None, {"p": 2, "q": [1, 2]}, {"q": [1, 2], "p": 1}], 1: [None, {"z": "t"}, {"z": "s"}], 2: [None, None, {"w": 3}]}


def split(col):
    feat, cls, h = col.split("::")
    return feat, cls, h


@harness("C16", "matrix_placement", conc=150, targets=[F])
def h_place(H):
    files = H.choice("files", [["/d/a.json"], ["/d/a.json", "/d/b.json"], ["/d/c.json", "/d/a.json", "/d/b.json"]])
    spec = H.choice("ops", [[(0, 0)], [(0, 0), (0, 1)], [(0, 1), (1, 0)], [(1, 1), (1, 0)]])
    n = len(files) * len(spec)
    drop = H.choice("drop", [None, 0, n - 1]) if n > 1 else None
    skip = H.choice("skip", [None, 0, n - 1])
    rev = H.choice("reversed", [False, True])
    place(H, files, spec, {(drop, 0), (drop, 1), (skip, 1)}, 2, (lambda xs: xs[::-1]) if rev else (lambda xs: xs))


@harness("C16", "matrix_placement_generated", proof=False, conc=150, targets=[F])
def h_place_gen(H):
    rng = H.rng
    files = ["/d/%s.json" % c for c in rng.sample("abcdefgh", rng.randint(1, 8))]
    spec = rng.sample([(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 2)], rng.randint(1, 6))
    nf = rng.randint(1, 4)
    p = rng.choice([0, 0.1, 0.5])
    place(H, files, spec, {(k, j) for k in range(len(files) * len(spec)) for j in range(nf) if rng.random() < p}, nf, lambda xs: rng.sample(xs, len(xs)))


def place(H, files, spec, drop, nf, order):
    cs = classes(H)
    items, want, k = [], {}, 0
    for f in files:
        for c, h in spec:
            vals = {"f%d" % j: H.real("v%d_%d" % (k, j), -1e6, 1e6) for j in range(nf) if (k, j) not in drop}
            if vals:
                items.append((cs[c], HY[c][h], f, vals))
                for n, v in vals.items():
                    want[(f, n, cs[c].__name__, h)] = v
            k += 1
    if not items:
        return
    items = order(items)
    fz = [make(H, *x) for x in items]
    keep = [(list(f.features.columns), list(f.features.index)) for f in fz]
    H.cover("matrix")
    r = H.run(H.mod(F).BEEPFeatureMatrix, fz)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    m = r.value.matrix
    H.ensure("one row per file", sorted(m.index) == sorted({x[2] for x in items}), list(m.index))
    cols = {(n, c, h) for (f, n, c, h) in want}
    H.ensure("one column per feature, class and hyperparameters", len(m.columns) == len(cols) and len(set(m.columns)) == len(cols), list(m.columns))
    # names: same operation -> same hash; the defaults and another set -> different hashes
    byop = {}
    for col in m.columns:
        n, c, h = split(col)
        byop.setdefault((n, c), []).append(col)
    H.ensure("columns named after feature and class", {k: len(v) for k, v in byop.items()} == {
        (n, c): len({hh for (n2, c2, hh) in cols if (n2, c2) == (n, c)}) for (n, c, h) in cols}, byop)
    # single-operation matrices give the name of each operation
    name = {}
    for c, h in spec:
        g = make(H, cs[c], HY[c][h], "/other/z.json", {"f%d" % j: 1.0 for j in range(nf)})
        s = H.run(H.mod(F).BEEPFeatureMatrix, [g])
        H.ensure("no error", s.ok, s)
        if not s.ok:
            return
        for col in s.value.matrix.columns:
            name[(split(col)[0], cs[c].__name__, h)] = col
    H.ensure("column names independent of order and file", {name[k] for k in cols} == set(m.columns), (sorted(m.columns), name))
    if {name[k] for k in cols} != set(m.columns):
        return
    for f in sorted({x[2] for x in items}):
        for (n, c, h) in sorted(cols):
            v = m.loc[f, name[(n, c, h)]]
            if (f, n, c, h) in want:
                H.ensure("cell holds the value of its feature", H.eq(v, want[(f, n, c, h)]), (f, n, c, h))
            else:
                H.ensure("missing where not computed", isinstance(v, float) and v != v, v)
    H.ensure("feature tables unchanged", keep == [(list(f.features.columns), list(f.features.index)) for f in fz])
    H.ensure("featurizers kept", list(r.value.featurizers) == fz)


@harness("C16", "hyperparameter_order", conc=30, targets=[F])
def h_order(H):
    cs = classes(H)
    v = H.real("v", -10, 10)
    out = []
    for h in ({"p": 1, "q": [1, 2]}, {"q": [1, 2], "p": 1}, None, {"p": 1, "q": [2, 1]}, {"p": 2, "q": [1, 2]}):
        r = H.run(H.mod(F).BEEPFeatureMatrix, [make(H, cs[0], h, "/d/a.json", {"x": v})])
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        out.append(r.value.matrix.columns[0])
    keys = ["p", "q", "cycle_late", "cycle_early", "Cycle_mid", "cycles"]
    alt = []
    for perm in (keys, keys[::-1], keys[3:] + keys[:3], sorted(keys)):
        r = H.run(H.mod(F).BEEPFeatureMatrix, [make(H, cs[0], {k: keys.index(k) for k in perm}, "/d/a.json", {"x": v})])
        H.ensure("no error", r.ok, r)
        if not r.ok:
            return
        alt.append(r.value.matrix.columns[0])
    H.ensure("name independent of the order of any number of hyperparameters", len(set(alt)) == 1 and alt[0] not in out, alt)
    H.cover("names")
    H.ensure("name independent of hyperparameter order and of defaults being explicit", out[0] == out[1] == out[2], out)
    H.ensure("different hyperparameters give different names", len({out[0], out[3], out[4]}) == 3, out)


@harness("C16", "matrix_refusals", conc=30, targets=[F])
def h_refuse(H):
    import pandas as pd
    cs = classes(H)
    m = H.mod(F)
    v = H.real("v", -10, 10)
    ok = make(H, cs[1], None, "/d/a.json", {"x": v})
    kind = H.choice("kind", ["nofeatures", "two_rows", "no_rows", "nopath", "twice", "twice_explicit", "twice_other_file", "partial_overlap"])
    if kind == "nofeatures":
        bad = make(H, cs[0], None, "/d/a.json", None)
    elif kind == "two_rows":
        bad = make(H, cs[0], None, "/d/a.json", {"x": v})
        bad.features = pd.DataFrame({"x": [1.0, 2.0]})
    elif kind == "no_rows":
        bad = make(H, cs[0], None, "/d/a.json", {"x": v})
        bad.features = pd.DataFrame({"x": []})
    elif kind == "nopath":
        bad = make(H, cs[0], None, None, {"x": v})
    elif kind == "twice":
        bad = make(H, cs[1], None, "/d/a.json", {"x": 3.0})
    elif kind == "twice_explicit":
        bad = make(H, cs[1], {"z": "s"}, "/d/a.json", {"x": 3.0})
    elif kind == "twice_other_file":
        bad = make(H, cs[1], {"z": "s"}, "/d/b.json", {"x": 3.0})
    else:
        bad = make(H, cs[1], {"z": "s"}, "/d/a.json", {"y": 3.0, "x": 1.0})
    H.cover(kind)
    for order in ([ok, bad], [bad, ok]):
        r = H.run(m.BEEPFeatureMatrix, order)
        if kind == "twice_other_file":
            H.ensure("same operation on another file is accepted", r.ok, r)
        else:
            H.ensure("refused: " + kind, (not r.ok) and isinstance(r.exc, m.BEEPFeatureMatrixError), r)


@harness("C16", "featurizer", conc=60, targets=[F, A])
def h_fz(H):
    import pandas as pd
    cs = classes(H)
    m = H.mod(F)
    md = {"barcode": H.text("bar", pool=["b", "c"]), "k": H.int("k", 0, 9)}
    dp = H.mod(A).ArbinDatapath(raw_data=None, metadata=md, paths={"raw": "/x/y.csv", "structured": "/x/z.json"})
    structured = H.choice("structured", [True, False])
    if structured:
        dp.structured_summary = pd.DataFrame({"cycle_index": [0]})
    hy = H.choice("hyper", ["none", "full", "partial", "extra", "empty"])
    p = H.int("p", 0, 100)
    h = {"none": None, "full": {"p": p, "q": [3]}, "partial": {"p": p}, "extra": {"p": p, "q": [4], "r": 1}, "empty": {}}[hy]
    H.cover("featurizer")
    r = H.run(cs[0], dp, h)
    if hy == "partial" or not structured:
        H.ensure("refused", (not r.ok) and isinstance(r.exc, m.BEEPFeaturizationError), r)
        return
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    f = r.value
    want = {"p": 1, "q": [1, 2]} if hy in ("none", "empty") else h
    H.ensure("hyperparameters", set(f.hyperparameters) == set(want) and and_(*[H.eq(f.hyperparameters[k], v) for k, v in want.items()]), f.hyperparameters)
    H.ensure("paths, metadata and identity of the run", f.paths == dp.paths and and_(*[H.eq(f.metadata[k], v) for k, v in md.items()]))
    r = H.run(f.as_dict)
    H.ensure("features not created cannot be saved", (not r.ok) and isinstance(r.exc, m.BEEPFeaturizationError), r)
    v = H.real("v", -5, 5)
    f.features = pd.DataFrame({"x": pd.Series([v], dtype=object if H.sym else None), "y": [2.0]})
    r = H.run(f.as_dict)
    H.ensure("as_dict: no error", r.ok, r)
    if not r.ok:
        return
    r = H.run(cs[0].from_dict, r.value)
    H.ensure("from_dict: no error", r.ok, r)
    if not r.ok:
        return
    g = r.value
    H.ensure("features kept", list(g.features.columns) == ["x", "y"] and len(g.features) == 1 and and_(H.eq(g.features["x"].iloc[0], v), H.eq(g.features["y"].iloc[0], 2.0)))
    H.ensure("hyperparameters kept", set(g.hyperparameters) == set(want) and and_(*[H.eq(g.hyperparameters[k], x) for k, x in want.items()]))
    H.ensure("paths, metadata and identity kept", g.paths == dp.paths and and_(*[H.eq(g.metadata[k], x) for k, x in md.items()])
             and (H.sym or g.linked_semiunique_id == f.linked_semiunique_id))


@harness("C16", "json_files", proof=False, conc=60, targets=[F])
def h_json(H):
    rng = H.rng
    cs = classes(H)
    m = H.mod(F)
    d = H.tmpdir()
    fz, want = [], {}
    for f in range(rng.randint(1, 4)):
        for c in rng.sample(range(3), rng.randint(1, 3)):
            for h in rng.sample([0, 1], rng.randint(1, 2)) if c < 2 else [rng.choice([0, 2])]:
                vals = {"f%d" % j: rng.choice([rng.uniform(-5, 5), float("nan"), float(rng.randint(-3, 3))]) for j in range(rng.randint(1, 3))}
                x = make(H, cs[c], HY[c][h], d + "/s%d.json" % f, vals)
                fz.append(x)
    rng.shuffle(fz)
    M = H.run(m.BEEPFeatureMatrix, fz)
    H.ensure("matrix: no error", M.ok, M)
    one = rng.choice(fz)
    fn = d + "/f.json" + rng.choice(["", ".gz"])
    r = H.run(one.to_json_file, fn)
    H.ensure("save: no error", r.ok, r)
    r = H.run(type(one).from_json_file, fn)
    H.ensure("load: no error", r.ok, r)
    g = r.value
    H.ensure("features kept", list(g.features.columns) == list(one.features.columns) and all(p == q or (p != p and q != q) for p, q in zip(g.features.iloc[0], one.features.iloc[0])))
    H.ensure("hyperparameters, metadata, identity kept, features path added", g.hyperparameters == one.hyperparameters and g.metadata == one.metadata
             and g.linked_semiunique_id == one.linked_semiunique_id and g.paths == dict(one.paths, features=fn), g.paths)
    fn = d + "/m.json" + rng.choice(["", ".gz"])
    r = H.run(M.value.to_json_file, fn)
    H.ensure("save matrix: no error", r.ok, r)
    r = H.run(m.BEEPFeatureMatrix.from_json_file, fn)
    H.ensure("load matrix: no error", r.ok, r)
    a, b = M.value.matrix, r.value.matrix
    H.ensure("matrix kept", list(a.columns) == list(b.columns) and list(a.index) == list(b.index)
             and all(p == q or (p != p and q != q) for p, q in zip(a.values.ravel().tolist(), b.values.ravel().tolist())), (a, b))
