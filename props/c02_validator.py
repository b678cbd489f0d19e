"""C02: the data validator's verdict is exactly the conjunction of the schema's rules."""
import numpy as np
from vc.harness import harness
from vc.values import and_, or_, not_, implies

VA = "beep.structure.validate"

META = {
    "title": "Validation verdict is exactly the conjunction of the schema rules",
    "statement": "Validating cycler data against a schema answers valid exactly when, for every column of the schema, no value exceeds the maximum or is below the minimum, the largest value reaches the required maximum, the smallest value goes to or below the required minimum, the values never decrease when they must be increasing, and the column has the required type (integer means every value equals its rounded value). Column names are matched case-insensitively, missing values never violate a bound, and the reason is empty for valid data and otherwise names the offending column and the violated threshold.",
    "over": ["inputs", "configurations"],
    "qtext": "every data frame (any number of rows, NaN included) and every combination of rules with any thresholds",
    "why": "the tests validate a handful of recorded files against the shipped schemas; boundary equality, NaN at particular rows, violations in the last row only and combinations of rules are not sampled",
    "files": ["beep/structure/validate.py"],
    "mechanism": [{"name": "SimpleValidator.validate", "where": "beep/structure/validate.py:124"},
                  {"name": "SimpleValidator.check_type", "where": "beep/structure/validate.py:72"}],
    "observe": ["SimpleValidator.validate"],
    "level": "proof",
    "level_note": "proved for columns of any length with NaN, all rule combinations on one column and pairs of columns, symbolic thresholds; pandas/numpy element-wise operations by assumed contracts",
    "assumptions": ["pandas/numpy: element-wise comparison, np.where, Series.max/min (NaN skipped), diff/dropna, round as documented (vc/frames.py)"],
    "bounded": ["string-typed columns and column-name case: generated frames only"],
}


def violates(H, col, rules):
    """spec: some rule of the column is violated"""
    n = H.len(col)
    v = []
    if rules.get("max") is not None:
        v.append(H.exists(n, lambda i: H.at(col, i) > rules["max"]))
    if rules.get("min") is not None:
        v.append(H.exists(n, lambda i: H.at(col, i) < rules["min"]))
    if rules.get("max_at_least") is not None:
        v.append(and_(H.exists(n, lambda i: not_(H.isnan(H.at(col, i)))),
                      H.forall(n, lambda i: or_(H.isnan(H.at(col, i)), H.at(col, i) < rules["max_at_least"]))))
    if rules.get("min_is_below") is not None:
        v.append(and_(H.exists(n, lambda i: not_(H.isnan(H.at(col, i)))),
                      H.forall(n, lambda i: or_(H.isnan(H.at(col, i)), H.at(col, i) > rules["min_is_below"]))))
    if rules.get("monotonic") == "increasing":
        v.append(H.exists(n, lambda i: and_(i >= 1, H.at(col, i) < H.at(col, H.ite(i >= 1, i - 1, 0)))))
    if rules.get("type") == "integer":
        v.append(H.exists(n, lambda i: or_(H.isnan(H.at(col, i)), not_(isint(H, H.at(col, i))))))
    return or_(False, *v)


def isint(H, x):
    if H.sym:
        return H.isint(x)
    return x == x and float(x).is_integer()


def typebad(t, dtype):
    if t == "float":
        return not np.issubdtype(dtype, np.floating)
    if t == "numeric":
        return not np.issubdtype(dtype, np.number)
    if t == "string":
        return not (np.issubdtype(dtype, np.object_) or np.issubdtype(dtype, np.str_))
    return False


def draw_rules(H, p, kinds):
    r = {}
    for k in kinds:
        if k in ("max", "min", "max_at_least", "min_is_below"):
            r[k] = H.real(p + k, lo=None if H.sym else -3, hi=None if H.sym else 4, decimals=0)
        elif k == "monotonic":
            r[k] = "increasing"
        else:
            r["type"] = k
    return r


def check(H, data, dtypes, schema, suffix=""):
    d = H.tmpdir()
    H.json_file(d + "/schema.json", {c: {"schema": dict(r), "type": "list"} for c, r in schema.items()})
    df = H.frame(data, dtypes)
    if not H.sym and len(df):
        how = H.choice("row_labels", ["default", "offset", "reversed", "repeated", "text"])
        if how != "default":
            df.index = {"offset": range(5, 5 + len(df)), "reversed": range(len(df) - 1, -1, -1), "repeated": [3] * len(df), "text": ["r%d" % i for i in range(len(df))]}[how]
    H.cover("inputs")
    v = H.run(H.mod(VA).SimpleValidator, schema_filename=d + "/schema.json")
    H.ensure("validator loads the schema", v.ok, v)
    r = H.run(v.value.validate, df)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    ok, reason = r.value
    low = {c.lower(): x for c, x in data.items()}
    dt = {c.lower(): x for c, x in dtypes.items()}
    bads = {c: or_(typebad(rr.get("type"), dt[c]), violates(H, low[c], rr)) for c, rr in schema.items()}
    H.ensure("verdict is the conjunction of the rules", H.eq(not_(or_(False, *bads.values())), ok), (r.value, schema))
    if H.case(ok):
        H.ensure("no reason for valid data", H.istext(reason) and reason == "", reason)
    else:
        named = [c for c in schema if H.mentions(reason, c)]
        H.ensure("reason names a column", len(named) > 0, reason)
        H.ensure("reason names an offending column", or_(False, *[bads[c] for c in named]), reason)


CASES = [["max"], ["min"], ["max_at_least"], ["min_is_below"], ["monotonic"], ["integer"], ["float"], ["numeric"], ["string"],
         ["max", "min", "float"], ["min", "max_at_least", "integer"], ["min_is_below", "monotonic"], ["max_at_least", "min_is_below"],
         ["max", "monotonic", "numeric"], []]


@harness("C02", "one_column", conc=900, targets=[VA], budget=150)
def h_one(H):
    kinds = H.choice("rules", CASES)
    dtype = H.choice("dtype", ["float64", "int64"])
    if "integer" in kinds or dtype == "float64":
        pass
    col = H.seq("v", "nreal" if dtype == "float64" else "int", minlen=1, gen=(-4, 5), concmax=6)
    schema = {"voltage": draw_rules(H, "t_", kinds)}
    check(H, {"voltage": col}, {"voltage": np.dtype(dtype)}, schema)


@harness("C02", "two_columns", conc=400, targets=[VA], budget=150)
def h_two(H):
    a = H.choice("rules1", [["max"], ["min", "monotonic"], ["integer"], []])
    b = H.choice("rules2", [["min"], ["max_at_least"], ["min_is_below"], ["numeric"]])
    rows = H.seq("rows", ("nreal", "real"), minlen=1, gen=(-4, 5), concmax=6)
    if H.sym:
        c1, c2 = rows.map(lambda t: t[0]), rows.map(lambda t: t[1])
    else:
        c1, c2 = [r[0] for r in rows], [r[1] for r in rows]
    schema = {"charge_capacity": draw_rules(H, "a_", a), "cycle_index": draw_rules(H, "b_", b)}
    check(H, {"Charge_Capacity": c1, "other": c2, "cycle_index": c2},
          {"Charge_Capacity": np.dtype("float64"), "other": np.dtype("float64"), "cycle_index": np.dtype("float64")}, schema)


@harness("C02", "thresholds_reported", conc=150, targets=[VA], budget=60)
def h_thr(H):
    """the reason states the threshold that was violated"""
    k = H.choice("rule", ["max", "min", "max_at_least", "min_is_below"])
    thr = H.choice("thr", [2.5, -1.25, 17.0])
    other = {"max": "min", "min": "max", "max_at_least": "min_is_below", "min_is_below": "max_at_least"}[k]
    rules = {k: thr}
    col = H.seq("v", "real", minlen=1, gen=(-30, 30), concmax=5)
    if H.bool("with_other"):
        rules[other] = 1000.5 if other in ("max", "min_is_below") else -1000.5
    d = H.tmpdir()
    H.json_file(d + "/schema.json", {"temperature": {"schema": rules, "type": "list"}})
    df = H.frame({"temperature": col}, {"temperature": np.dtype("float64")})
    r = H.run(H.mod(VA).SimpleValidator(schema_filename=d + "/schema.json").validate, df) if not H.sym else H.run(
        H.run(H.mod(VA).SimpleValidator, schema_filename=d + "/schema.json").value.validate, df)
    H.ensure("no error", r.ok, r)
    if not r.ok:
        return
    ok, reason = r.value
    if H.case(and_(not_(ok), not_(violates(H, col, {other: rules.get(other)})))):
        H.ensure("reason states the violated threshold", H.mentions(reason, str(thr)), reason)


@harness("C02", "strings_and_types", proof=False, conc=200, targets=[VA])
def h_str(H):
    import pandas as pd
    rng = H.rng
    t = H.choice("type", ["string", "float", "numeric", "integer", "weird"])
    vals = H.choice("vals", [["a", "b"], [1, 2], [1.0, 2.5], [1.0, 2.0], [3], [float("nan"), 1.0]])
    name = H.choice("name", ["Channel_ID", "channel_id", "CHANNEL_ID"])
    d = H.tmpdir()
    H.json_file(d + "/schema.json", {"channel_id": {"schema": {"type": t}, "type": "list"}})
    df = pd.DataFrame({name: vals})
    if t == "integer" and isinstance(vals[0], str):
        return
    r = H.run(H.mod(VA).SimpleValidator(schema_filename=d + "/schema.json").validate, df)
    if t == "weird":
        H.ensure("unknown type rule rejected", not r.ok and isinstance(r.exc, ValueError), r)
        return
    H.ensure("no error", r.ok, r)
    k = np.asarray(vals).dtype.kind
    want = {"string": k in "UO", "float": k == "f", "numeric": k in "fi",
            "integer": k == "i" or (k == "f" and all(v == v and float(v).is_integer() for v in vals))}[t]
    H.ensure("type verdict", bool(r.value[0]) == want, (t, vals, r.value))
    H.ensure("reason iff invalid", (r.value[1] == "") == want, r.value)
