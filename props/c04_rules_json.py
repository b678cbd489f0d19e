"""C04: cycle-advancement rules survive serialisation."""
from vc.harness import harness
from vc.values import and_, or_, not_, implies

BL = "beep.structure.biologic"
M2B = "beep.protocol.maccor_to_biologic_mb"

META = {
    "title": "Cycle-advancement rules survive the JSON round trip",
    "statement": "Writing cycle-advancement rules to JSON and parsing the text returns rules with the same technique number, loop flag, advance on start, advance on technique loop, and exactly the same sequence transitions and step transitions with the same counts. This holds for the writer and reader of the protocol converter, for those of the BioLogic data loader, and when one writes and the other reads.",
    "over": ["inputs"],
    "qtext": "every rules object: any technique number, flags, counts and any number of (source, target) transitions with any counts",
    "why": "one fixed rules object is round-tripped by the tests; lost, swapped or merged transitions for other shapes (same target, self transitions, zero counts, large maps) are not sampled",
    "files": ["beep/structure/biologic.py", "beep/protocol/maccor_to_biologic_mb.py"],
    "mechanism": [{"name": "CycleTransitionRulesSerializer", "where": "beep/structure/biologic.py:300"},
                  {"name": "CycleAdvancementRulesSerializer", "where": "beep/protocol/maccor_to_biologic_mb.py:1354"}],
    "observe": ["serializer.json", "serializer.parse_json"],
    "level": "proof",
    "level_note": "all four writer/reader pairs proved for maps of any size (loop invariants over the written list and the rebuilt map); assumes json.loads(json.dumps(x)) == x for dicts/lists of ints and bools",
    "assumptions": ["json.loads(json.dumps(x)) == x for JSON-native x (assumed library contract)"],
}

PAIRS = {"data_loader": (BL, "CycleTransitionRules", "CycleTransitionRulesSerializer"),
         "converter": (M2B, "CycleAdvancementRules", "CycleAdvancementRulesSerializer")}


def same_map(H, label, got, want, key):
    H.ensure(label + ": same transitions", H.eq(H.has(got, key), H.has(want, key)), got)
    if H.case(H.has(want, key)):
        H.ensure(label + ": same counts", H.eq(H.lookup(got, key, -1), H.lookup(want, key, -2)), got)


def body(H, wname, rname):
    W, R = PAIRS[wname], PAIRS[rname]
    wm, rm = H.mod(W[0]), H.mod(R[0])
    T = H.mapping("T", ("int", "int"), "int", kgen=(0, 4), vgen=(0, 3))
    D = H.mapping("D", ("int", "int"), "int", kgen=(0, 4), vgen=(0, 3))
    flag = H.choice("does_loop", [True, False])
    tech, start, tloop = H.int("tech", 1), H.int("start", 0), H.int("tloop", 0)
    if H.sym:
        for n, m in (("T", T), ("D", D)):
            H.ghost_map(n + "_prefix", ("int", "int"), lambda key, k, m=m: m.sym.in_prefix(key, k), lambda key, m=m: m.sym.raw(key))
            seq = H.items(m, lambda k, v: {"source": k[0], "target": k[1], "adv_cycle_count": v})
            H.ghost(n + "_list", lambda i, seq=seq: H.at(seq, i))
    H.cover("inputs")
    r = H.run(getattr(wm, W[1]), tech, flag, start, tloop, T, D)
    H.ensure("rules constructible", r.ok, r)
    s = H.run(getattr(wm, W[2])().json, r.value)
    H.ensure("written", s.ok, s)
    if not s.ok:
        return
    b = H.run(getattr(rm, R[2])().parse_json, s.value)
    H.ensure("read back", b.ok, b)
    if not b.ok:
        return
    x = b.value
    H.ensure("technique number", H.eq(x.tech_num, tech))
    H.ensure("loop flag", H.eq(x.tech_does_loop, flag))
    H.ensure("advance on start", H.eq(x.adv_cycle_on_start, start))
    H.ensure("advance on technique loop", H.eq(x.adv_cycle_on_tech_loop, tloop))
    if H.sym:
        key = H.arbitrary("key", ("int", "int"))
        same_map(H, "sequence transitions", x.adv_cycle_seq_transitions, T, key)
        same_map(H, "step transitions", x.debug_adv_cycle_on_step_transitions, D, key)
    else:
        H.ensure("sequence transitions", dict(x.adv_cycle_seq_transitions) == T, x)
        H.ensure("step transitions", dict(x.debug_adv_cycle_on_step_transitions) == D, x)


def mk(w, r):
    @harness("C04", "%s_to_%s" % (w, r), conc=120, targets=[BL, M2B], budget=150)
    def h(H):
        body(H, w, r)


for _w in PAIRS:
    for _r in PAIRS:
        mk(_w, _r)
