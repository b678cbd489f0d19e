#!/opt/venv/bin/python
"""seedcheck.py [ids|props]: run the property's check against each seeded change in a scratch copy; prints caught / missed."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
W = "/tmp/seedchk%d" % os.getpid()
for i in sorted(os.listdir(HERE + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    if sys.argv[1:] and i not in sys.argv[1:] and meta["property"] not in sys.argv[1:]:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, W], check=True)
    a = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (HERE, i)], cwd=W, capture_output=True, text=True)
    p = subprocess.run(["./check.py", meta["property"]], cwd=HERE, env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "failed"))]
    R = HERE + "/tools/seed_results.json"
    res = json.load(open(R)) if os.path.exists(R) else {}
    res[i] = ("caught: " + (v[0][19:] if v else "").split(": ")[0]) if p.returncode == 1 else "missed"
    json.dump(res, open(R, "w"), indent=1, sort_keys=True)
    print(i, meta["property"], "CAUGHT" if p.returncode == 1 else "MISSED rc=%d" % p.returncode, a.stderr[:100], v[:1], flush=True)
shutil.rmtree(W, ignore_errors=True)
