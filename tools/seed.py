#!/opt/venv/bin/python
"""seed.py [ids...]: (re)create /verif/seeded/<id>/ from tools/seeds/*.py specs, confirming in a scratch copy that the
patch builds, the demo passes on the clean tree and fails with the patch, and (with --tests) the stable tests pass."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
W = "/tmp/seedwork%d" % os.getpid()
ENV = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", MPLBACKEND="Agg", BEEP_ENV="dev",
           TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           AWS_EC2_METADATA_DISABLED="true")
DEMO_SH = """#!/bin/bash
# exit 0: behaviour is right; non-zero: the property is broken. Run with cwd = the repository.
export PATH=/opt/venv/bin:$PATH MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 PYTHONDONTWRITEBYTECODE=1
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
PYTHONPATH="$PWD" DEMO_DIR="$T" python "$D/demo.py"
R=$?
rm -rf "$T"
exit $R
"""


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def specs():
    out = {}
    d = os.path.join(HERE, "tools", "seeds")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            for x in m.SEEDS:
                out[x["id"]] = x
    return out


def tests():
    sh(["bash", "-c", "timeout 840 python -m pytest beep -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
        "-n 8 --dist loadfile -o junit_family=xunit2 --junitxml=%s.xml" % W])
    ok = set()
    for c in ET.parse(W + ".xml").getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    os.unlink(W + ".xml")
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    withtests = "--tests" in sys.argv
    sp = specs()
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, W], check=True)
    for i, x in sp.items():
        if args and i not in args:
            continue
        if not args and os.path.exists(os.path.join(HERE, "seeded", i)) and "--all" not in sys.argv:
            continue
        sh(["git", "checkout", "-q", "--", "."])
        for f, old, new in x["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"]).stdout
        d = os.path.join(HERE, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(x["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": x["property"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, env=ENV, capture_output=True, text=True)
        b = sh(["bash", d + "/demo.sh"])
        c = sh(["python", "-m", "compileall", "-q", "beep"])
        good = a.returncode == 0 and b.returncode != 0 and c.returncode == 0
        print(i, x["property"], "OK" if good else "BAD", a.returncode, b.returncode, flush=True)
        if not good:
            print(a.stdout[-800:], a.stderr[-1500:], "\n-- patched:", b.stdout[-800:], b.stderr[-1500:])
            shutil.rmtree(d)
        elif "-v" in sys.argv:
            print(b.stdout[-300:], b.stderr[-400:])
        if good and withtests:
            t = tests()
            print("   tests lost:", t, flush=True)
            if t:
                shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)


main()
