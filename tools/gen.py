#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from the META blocks in props/ (and NOT_APPLICABLE below)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vc   # noqa
os.chdir(HERE)
NA = json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else []
props, checks = [], []
for f in sorted(os.listdir("props")):
    if not f.endswith(".py") or not f[:3].startswith("c") or not f[1:3].isdigit():
        continue
    pid = f.split("_")[0].upper()
    m = importlib.import_module("props." + f[:-3]).META
    props.append({"id": pid, "title": m["title"], "statement": m["statement"],
                  "quantifier": {"over": m["over"], "text": m["qtext"]}, "why_tests_cant": m["why"],
                  "anchors": {"files": m["files"], "mechanism": m["mechanism"], "observe_at": m["observe"], "hook_needed": None}})
    if len(m["title"]) > 80:
        raise SystemExit("title too long: " + pid)
    checks.append({"property": pid, "quick_cmd": "./check.py %s --tier quick" % pid,
                   "thorough_cmd": "./check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": m.get("technique", "contract-based deductive verification (symbolic execution of the real code against contracts, VCs by z3)"),
                   "level": m["level"], "level_note": m["level_note"]})
for n in NA:
    props.append(n["property"])
props.sort(key=lambda p: p["id"])
with open("properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
       "checks": checks, "not_applicable": [{"property": n["property"]["id"], "reason": n["reason"]} for n in NA],
       "notes": "No hooks in /repo: the checks import /repo's modules through an instrumenting import hook (vc/instrument.py) or unmodified."}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, sch)
print(len(props), "properties", len(checks), "checks")

# ---- DESIGN.md
sec = ["## Properties\n"]
for f in sorted(os.listdir("props")):
    if not f.endswith(".py") or not f[:3].startswith("c") or not f[1:3].isdigit():
        continue
    pid = f.split("_")[0].upper()
    mod = importlib.import_module("props." + f[:-3])
    m = mod.META
    sec.append("### %s - %s\n" % (pid, m["title"]))
    sec.append("*Statement.* " + m["statement"] + "\n")
    sec.append("*Quantifier.* " + m["qtext"] + ". *Why tests cannot.* " + m["why"] + ".\n")
    sec.append("*Anchors.* " + "; ".join("`%s` (%s)" % (x["name"], x["where"]) for x in m["mechanism"]) + ".\n")
    sec.append("*How it is decided.* Level `%s`: %s.\n" % (m["level"], m["level_note"].rstrip(".")))
    from vc.harness import REGISTRY
    sec.append("*Contracts.* " + "; ".join("`%s` (%s)" % (h.name, "proof + %d evaluations" % h.conc if h.proof else "bounded stand-in, %d evaluations" % h.conc) for h in REGISTRY.get(pid, [])) + ".\n")
    if m.get("bounded"):
        sec.append("*Bounds.* " + "; ".join(m["bounded"]) + ".\n")
    sec.append("*Assumptions.* " + ("; ".join(m.get("assumptions", [])) or "none beyond the trusted base") + ".\n")
if NA:
    sec.append("### Not applicable\n")
    for n in NA:
        sec.append("* %s %s: %s" % (n["property"]["id"], n["property"]["title"], n["reason"]))
res = json.load(open("tools/seed_results.json")) if os.path.exists("tools/seed_results.json") else {}
rows = ["| change | property | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    mt = json.load(open("seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, mt["property"], mt["needs"], res.get(i, "not run")))
open("DESIGN.md", "w").write(open("tools/DESIGN.tmpl.md").read().replace("@@PROPERTIES@@", "\n".join(sec)).replace("@@SEEDS@@", "\n".join(rows)))
