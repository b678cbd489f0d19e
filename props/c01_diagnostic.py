"""C01: a diagnostic configuration partitions the diagnostic cycles by type, consistently in both directions."""
from vc.harness import harness
from vc.values import and_, or_, not_, implies

DG = "beep.structure.diagnostic"
NAMES = ["rpt_0.2C", "HPPC", "reset", "RPT_1C", "custom", "Reset-hppc", "aging"]

META = {
    "title": "Diagnostic configuration is an exact partition of diagnostic cycles",
    "statement": "A diagnostic configuration is accepted exactly when it names at least one cycle type, no cycle index is listed under two types and every extra parameter is a plain scalar; then the type-to-cycles view, the cycle-to-type view and the set of all diagnostic cycles agree with what was given, and the HPPC/RPT/reset cycle sets are exactly the cycles of types whose name contains that word in any case. Serialising the configuration (through JSON) and reading it back gives an equal configuration with the same parameters. Deriving it from raw data by step numbers labels a cycle with a type exactly when its steps contain (or, for exact matching, are precisely) one of the given step sets.",
    "over": ["inputs", "configurations"],
    "qtext": "every mapping of cycle type names to cycle indices, every parameter dict, every raw data frame with cycle and step indices and every set of matching criteria",
    "why": "tests use four fixed configurations and one fixed data file; overlap between particular pairs of types, mixed-case names, empty types, types whose name matches two words, duplicate step patterns are not sampled",
    "files": ["beep/structure/diagnostic.py"],
    "mechanism": [{"name": "DiagnosticConfig.__init__", "where": "beep/structure/diagnostic.py:60"},
                  {"name": "DiagnosticConfig.from_step_numbers", "where": "beep/structure/diagnostic.py:108"},
                  {"name": "as_dict/from_dict", "where": "beep/structure/diagnostic.py:203"}],
    "observe": ["DiagnosticConfig attributes", "DiagnosticConfig.as_dict"],
    "level": "proof",
    "level_note": "constructor and dict round trip: proved for up to 3 types x up to 2 symbolic cycle indices each (sizes are the bound, values unbounded); step-number matching: bounded stand-in on generated data frames (pandas)",
    "bounded": ["from_step_numbers: pandas code, generated frames of up to 8 cycles x 6 rows", "constructor: <=3 types x <=2 indices symbolic, larger ones generated"],
}


def words(H, dc, types, cfg):
    for w, attr in (("hppc", "hppc_ix"), ("rpt", "rpt_ix"), ("reset", "reset_ix")):
        want = [i for t in types if w in t.lower() for i in cfg[t]]
        H.ensure("%s cycles are those of matching types" % w, H.seteq(getattr(dc, attr), want), (cfg, attr, getattr(dc, attr)))


def views(H, dc, types, cfg):
    H.ensure("types kept", set(dc.cycles) == set(types))
    for t in types:
        H.ensure("cycles of a type", H.seteq(dc.cycles[t], cfg[t]), (cfg, dc.cycles))
    every = [i for t in types for i in cfg[t]]
    H.ensure("all diagnostic cycles", H.seteq(dc.all_ix, every), (cfg, dc.all_ix))
    H.ensure("typed cycles are the diagnostic cycles", H.seteq(list(dc.type_by_ix.keys()), every), (cfg, dc.type_by_ix))
    for t in types:
        for i in cfg[t]:
            got = [v for k, v in dc.type_by_ix.items() if bool(k == i)]
            H.ensure("type of a cycle", len(got) == 1 and got[0] == t, (cfg, dc.type_by_ix))
    words(H, dc, types, cfg)


def overlap(types, cfg):
    cs = [a == b for x, t in enumerate(types) for u in types[:x] for a in cfg[t] for b in cfg[u]]
    return or_(False, *cs)


@harness("C01", "constructor", conc=0, targets=[DG], budget=120)
def h_ctor(H):
    n = H.choice("ntypes", [1, 2, 3])
    sets = {1: [["rpt_0.2C"], ["Reset-hppc"], ["aging"]], 2: [["RPT_1C", "HPPC"], ["aging", "reset"]], 3: [["hppc1", "rpt", "x-Reset"]]}[n]
    types = H.choice("types", sets)
    cfg = {}
    for j, t in enumerate(types):
        m = H.choice("m%d" % j, [0, 1, 2] if n < 3 else [0, 1])
        cfg[t] = [H.int("ix%d_%d" % (j, q), 0) for q in range(m)]
    H.cover("inputs")
    r = H.run(H.mod(DG).DiagnosticConfig, dict(cfg), parameter_set="Tesla21", n=3)
    if H.case(overlap(types, cfg)):
        H.ensure("overlapping types rejected", not r.ok and isinstance(r.exc, ValueError), (cfg, r))
        return
    H.ensure("non-overlapping types accepted", r.ok, (cfg, r))
    if not r.ok:
        return
    views(H, r.value, types, cfg)
    H.ensure("parameters kept", r.value.params == {"parameter_set": "Tesla21", "n": 3})
    d = H.run(r.value.as_dict)
    H.ensure("serialisable", d.ok, d)
    if not d.ok:
        return
    back = H.run(H.mod(DG).DiagnosticConfig.from_dict, d.value)
    H.ensure("readable back", back.ok, back)
    if back.ok:
        views(H, back.value, types, cfg)
        H.ensure("parameters survive", back.value.params == {"parameter_set": "Tesla21", "n": 3})


@harness("C01", "constructor_sampled", proof=False, conc=600, targets=[DG])
def h_ctor_b(H):
    import json
    from monty.json import MontyEncoder, MontyDecoder
    rng = H.rng
    n = H.int("ntypes", 0, 5)
    pool = ["rpt_0.2C", "HPPC", "reset", "RPT_1C", "custom", "Reset-hppc", "aging", "hpPC2", "xRPTx", "resetRpt", "", "p rpt c"]
    if H._get("types") is not None:
        types, raw = H._get("types"), {k: v for k, v in H._get("cfg").items()}
    else:
        types = rng.sample(pool, n)
        lim = rng.choice([4, 12, 2000])
        used, raw = set(), {}
        disjoint = rng.random() < 0.7
        for t in types:
            ix = [rng.randint(0, lim) for _ in range(rng.randint(0, 6))]
            if disjoint:
                ix = [i for i in ix if i not in used]
            used |= set(ix)
            raw[t] = ix
    H.log["types"], H.log["cfg"] = types, raw
    conv = H.choice("container", [list, set, tuple, frozenset])
    cfg = {t: conv(raw[t]) for t in types}
    params = {"a": H.choice("p1", [1, 0, "x", 2.5, True, "", False]), "b": H.choice("p2", [None, 3, [1], {"k": 1}, (2,), "z"])}
    if H.bool("noparams"):
        params = {}
    DC = H.mod(DG).DiagnosticConfig
    r = H.run(DC, cfg, **params)
    bad_param = not all(isinstance(v, (int, str, float, bool)) for v in params.values())
    every = [i for t in types for i in set(raw[t])]
    bad = not types or len(every) != len(set(every))
    if bad or bad_param:
        H.ensure("rejected", not r.ok and isinstance(r.exc, (ValueError, TypeError)), (cfg, params, r))
        return
    H.ensure("accepted", r.ok, (cfg, params, r))
    views(H, r.value, types, cfg)
    H.ensure("parameters kept", r.value.params == params)
    text = json.dumps(r.value, cls=MontyEncoder)
    back = json.loads(text, cls=MontyDecoder)
    H.ensure("same class read back", isinstance(back, DC), type(back))
    views(H, back, types, cfg)
    H.ensure("parameters survive", back.params == params, (params, back.params))


@harness("C01", "from_step_numbers", proof=False, conc=400, targets=[DG], bounded="generated frames")
def h_steps(H):
    import json
    import pandas as pd
    from monty.json import MontyEncoder, MontyDecoder
    rng = H.rng
    if H._get("rows") is not None:
        rows, crit = H._get("rows"), {k: (v[0], [tuple(p) for p in v[1]]) for k, v in H._get("crit").items()}
    else:
        base = rng.choice([0, 1, 5])
        rows = []
        for c in range(base, base + rng.randint(1, 8)):
            for _ in range(rng.randint(1, 6)):
                rows.append([c, rng.randint(1, 6)])
        if rng.random() < 0.3:
            rng.shuffle(rows)
        crit = {}
        for t in rng.sample(["hppc", "rpt_a", "RPT_b", "reset"], rng.randint(1, 3)):
            crit[t] = (rng.choice(["contains", "exact"]),
                       [tuple(rng.randint(1, 6) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 3))])
    H.log["rows"], H.log["crit"] = rows, {k: [v[0], [list(p) for p in v[1]]] for k, v in crit.items()}
    df = pd.DataFrame(rows, columns=["cycle_index", "step_index"])
    steps = {}
    for c, s in rows:
        steps.setdefault(c, set()).add(s)
    want = {t: {c for c, ss in steps.items() if any((set(p) <= ss if k == "contains" else set(p) == ss) for p in ps)}
            for t, (k, ps) in crit.items()}
    DC = H.mod(DG).DiagnosticConfig
    r = H.run(DC.from_step_numbers, df, crit, some=1)
    n = [i for v in want.values() for i in v]
    if len(n) != len(set(n)):
        H.ensure("ambiguous cycles rejected", not r.ok and isinstance(r.exc, ValueError), r)
        return
    H.ensure("accepted", r.ok, r)
    views(H, r.value, list(crit), {t: list(want[t]) for t in crit})
    H.ensure("parameters kept", r.value.params == {"some": 1})
    back = json.loads(json.dumps(r.value, cls=MontyEncoder), cls=MontyDecoder)
    views(H, back, list(crit), {t: list(want[t]) for t in crit})
    bad = dict(crit)
    bad["zz"] = ("equals", [(1,)])
    rb = H.run(DC.from_step_numbers, df, bad)
    H.ensure("unknown rule rejected", not rb.ok and isinstance(rb.exc, ValueError), rb)
