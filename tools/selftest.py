#!/opt/venv/bin/python
"""setup: the engine imports, z3 answers, every property module loads."""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vc  # noqa
import z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1, x < 2)
assert s.check() == z3.unsat
for f in sorted(os.listdir(os.path.join(HERE, "props"))):
    if f.startswith("c") and f.endswith(".py"):
        importlib.import_module("props." + f[:-3])
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok", z3.get_version_string())
