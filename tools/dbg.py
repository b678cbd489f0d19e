import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv=['x']
from vc import instrument, core, models, harness as hz
instrument.install()
import importlib, traceback
prop, name = sys.stdin.readline().split()
import check
check.load_property(prop)
h=[x for x in hz.REGISTRY[prop] if x.name==name][0]
orig=hz.engine_fault
seen=set()
def ef(x):
    try: orig(x)
    except BaseException as u:
        t=traceback.format_exc()
        if len(seen)<3 and str(x) not in seen:
            seen.add(str(x)); 
            print("".join(traceback.format_exception(x)[-14:]))
        raise
hz.engine_fault=ef
e=core.Explorer(query_ms=4000,budget_s=300)
models.ACTIVE.update(h.contracts)
e.explore(lambda e_: h.fn(hz.SymH(e_)))
print(e.paths, sorted(set(e.unsupported))[:5])
for v in e.vcs:
    if v.status!="valid": print(v.label, v.status, getattr(v,"draws",None), v.model)
for v in []:
    if v.status!='valid': print(v.label,v.status,v.model,v.detail); break
