#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]      exit 0 held / 1 VIOLATION / 3 could not run

Stage A (proof):   sym worker  - real modules from /repo, instrumented; VCs discharged by z3.
Stage B (concrete): conc worker - real modules from /repo, un-instrumented; counter-models of A
                    replayed, the same contracts evaluated on seeded inputs.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("BEEP_ENV", "dev")
os.environ.setdefault("TQDM_OFF", "1")
os.environ.setdefault("AWS_EC2_METADATA_DISABLED", "true")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def load_property(prop):
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("props." + f[:-3])
    raise SystemExit("no such property: %s" % prop)


# ------------------------------------------------------------------------------- workers
def _silence():
    import logging
    import warnings
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def run_pool(tasks, fn, limit_s):
    """tasks run in forked children (one per task), NPROC at a time, each with a hard wall limit"""
    ctx = mp.get_context("fork")
    pending, live, out = list(enumerate(tasks)), {}, {}
    while pending or live:
        while pending and len(live) < NPROC:
            i, t = pending.pop(0)
            r, w = ctx.Pipe(False)

            def target(t=t, w=w):
                try:
                    _silence()
                    res = fn(t)
                except BaseException as e:
                    res = {"crash": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
                try:
                    w.send_bytes(pickle.dumps(res))
                except BaseException as e:
                    w.send_bytes(pickle.dumps({"crash": "result not picklable: %s" % e}))
                w.close()
                os._exit(0)
            p = ctx.Process(target=target)
            p.start()
            w.close()
            live[i] = (p, r, time.time(), t)
        for i in list(live):
            p, r, t0, t = live[i]
            if r.poll(0.005):
                try:
                    out[i] = pickle.loads(r.recv_bytes())
                except EOFError:
                    out[i] = {"crash": "worker died"}
                p.join()
                del live[i]
            elif not p.is_alive():
                out[i] = {"crash": "worker died (exit %s)" % p.exitcode}
                del live[i]
            elif time.time() - t0 > limit_s(t):
                p.kill()
                p.join()
                out[i] = {"crash": "wall limit"}
                del live[i]
    return [out[i] for i in range(len(tasks))]


def worker_sym(prop, tier, out):
    from vc import instrument, core, models
    from vc import harness as hz
    instrument.install()
    m = load_property(prop)
    hs = [h for h in hz.REGISTRY.get(prop, []) if h.proof]
    for h in hs:
        for t in h.targets:
            try:
                importlib.import_module(t)
            except Exception:
                pass

    def one(h):
        scale = 3 if tier == "thorough" else 1
        e = core.Explorer(query_ms=h.query_ms, budget_s=h.budget * scale, keep_smt2=(tier == "thorough"))
        models.ACTIVE.clear()
        models.ACTIVE.update(h.contracts)
        e.explore(lambda e_: h.fn(hz.SymH(e_)))
        vcs = {}
        for v in e.vcs:
            d = vcs.setdefault(v.label, {"valid": 0, "refuted": 0, "unknown": 0, "secs": 0.0})
            d[v.status] += 1
            if v.status == "valid":
                d[v.via] = d.get(v.via, 0) + 1
            d["secs"] += v.secs
        unk = [{"label": v.label, "model": v.model} for v in e.vcs if v.status == "unknown" and v.model][:10]
        ref = [{"label": v.label, "model": v.model, "path": v.path, "detail": v.detail} for v in e.vcs if v.status == "refuted"]
        # one representative per label first, then others
        seen, order = set(), []
        for r in ref:
            if r["label"] not in seen:
                seen.add(r["label"])
                order.append(r)
        order += [r for r in ref if r not in order][:12]
        smt = [(v.label, v.smt2) for v in e.vcs if v.smt2 and v.status == "valid"]
        bmc = None
        if ref or e.unsupported or any(v.status == "unknown" for v in e.vcs):
            # bounded re-exploration: every input length up to 3, loops executed natively, values still symbolic
            b = core.Explorer(query_ms=4000, budget_s=min(h.budget, 60) * scale, bound=3)
            b.explore(lambda e_: h.fn(hz.SymH(e_)))
            bref = [{"label": v.label, "model": v.model} for v in b.vcs if v.status == "refuted"]
            bmc = {"clean": not bref and not b.unsupported and not any(v.status == "unknown" for v in b.vcs),
                   "refuted": bref[:20], "paths": b.paths, "unsupported": sorted(set(b.unsupported))[:5],
                   "vcs": len(b.vcs), "unbounded_inputs": b.used_unbounded}
        return {"harness": h.name, "vcs": vcs, "bmc": bmc, "refuted": order[:30], "unknown_models": unk, "unsupported": sorted(set(e.unsupported))[:10],
                "n_unsupported": len(e.unsupported), "paths": e.paths, "completed": e.completed, "queries": e.queries,
                "solver_s": e.solver_s, "wall": e.wall, "covers": e.covers, "functions": e.functions_entered,
                "contracts_used": e.contracts_used, "smt2": smt[:400],
                "invariants": {k: sorted(map(str, v)) for k, v in e.loop_cands.items()}}
    res = run_pool(hs, one, lambda h: h.budget * (3 if tier == "thorough" else 1) + 60)
    for h, r in zip(hs, res):
        r.setdefault("harness", h.name)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def jsonable(x):
    from fractions import Fraction
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def moved(e):
    """the failure only says that an internal name or signature is no longer there: no observation of behaviour"""
    t = str(e)
    if isinstance(e, (ImportError, MemoryError, OSError)):
        return True
    if isinstance(e, AttributeError):
        return t.startswith(("module ", "type object ", "partially ", "'types.SimpleNamespace'", "'SimpleNamespace'")) or "attribute '_" in t
    if isinstance(e, TypeError):
        return "argument" in t and "()" in t
    return False


def eval_once(h, rng, assign):
    from vc import harness as hz
    H = hz.ConcH(rng, assign)
    res = {"status": "ok"}
    try:
        h.fn(H)
    except hz.Skip:
        res["status"] = "skip"
    except hz.Violation as v:
        res = {"status": "violation", "label": v.label, "info": repr(v.info)[:1500]}
    except Exception as e:
        res = {"status": "error", "error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:]}
        in_repo = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/beep/") for f in traceback.extract_tb(e.__traceback__))
        if assign is None and (H.ran or in_repo) and not moved(e):
            res = {"status": "violation", "label": "the outcome can be observed as promised", "info": res["error"] + res["tb"][-700:]}
    finally:
        H.cleanup()
    res["log"] = H.log
    res["checked"] = H.checked
    res["covers"] = H.covers
    return res


def worker_conc(prop, tier, seed, inp, out):
    import random
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, REPO)
    from vc import harness as hz
    load_property(prop)
    hs = hz.REGISTRY.get(prop, [])
    byname = {h.name: h for h in hs}
    tasks = []
    if inp:
        with open(inp, "rb") as f:
            for hn, model in pickle.load(f):
                tasks.append(("replay", hn, model))
    else:
        for h in hs:
            n = h.conc if tier == "quick" else h.thorough_conc
            if n <= 0:
                continue
            chunks = max(1, min(8, n // 40)) if tier == "quick" else max(1, min(24, n // 40))
            for c in range(chunks):
                tasks.append(("search", h.name, (c, chunks, n)))
    tlimit = 200 if tier == "quick" else 1200

    def one(t):
        kind, hn, arg = t
        h = byname[hn]
        agg = {"harness": hn, "evaluations": 0, "skips": 0, "errors": [], "violations": [], "hashes": set(), "samples": [],
               "covers": set(), "checks": 0, "n_errors": 0}

        def feed(r, assign):
            agg["checks"] += r["checked"]
            agg["covers"] |= r["covers"]
            if r["status"] == "skip":
                agg["skips"] += 1
                return
            agg["evaluations"] += 1
            s = json.dumps(jsonable(r["log"]), sort_keys=True)
            if r["checked"]:
                agg["hashes"].add(hashlib.md5(s.encode()).hexdigest()[:12])
                if len(agg["samples"]) < 2:
                    agg["samples"].append(jsonable(r["log"]))
            if r["status"] == "violation" and len(agg["violations"]) < 5:
                agg["violations"].append({"harness": hn, "label": r["label"], "info": r["info"], "input": r["log"]})
            if r["status"] == "error":
                agg["n_errors"] += 1
                if len(agg["errors"]) < 2:
                    agg["errors"].append({"error": r["error"], "tb": r["tb"], "input": jsonable(r["log"])})
        if kind == "replay":
            for j in range(3):
                feed(eval_once(h, random.Random("replay%d" % j), arg), arg)
            return agg
        c, chunks, n = arg
        t0 = time.time()
        todo = [i for i in range(n) if i % chunks == c]
        if h.enum is not None and c == 0:
            for assign in h.enum():
                feed(eval_once(h, random.Random("enum"), assign), assign)
        for i in todo:
            feed(eval_once(h, random.Random("%s:%s:%d" % (seed, hn, i)), None), None)
            if time.time() - t0 > tlimit or len(agg["violations"]) >= 5:
                break
        return agg
    res = run_pool(tasks, one, lambda t: tlimit + 60)
    with open(out, "wb") as f:
        pickle.dump([(t, r) for t, r in zip(tasks, res)], f)


# ------------------------------------------------------------------------------- main
def spawn(*args):
    env = dict(os.environ)
    return subprocess.Popen([PY, os.path.join(HERE, "check.py"), "--worker"] + [str(a) for a in args], env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--only", choices=["sym", "conc"])
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    t0 = time.time()
    import tempfile
    tmp = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    try:
        return _main(prop, tier, seed, tmp, a, t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def _main(prop, tier, seed, tmp, a, t0):
    fa, fb, fr, fi = [os.path.join(tmp, x) for x in ("a", "b", "r", "i")]
    procs = []
    if a.only != "conc":
        procs.append(("sym", spawn("sym", prop, tier, fa)))
    if a.only != "sym":
        procs.append(("conc", spawn("conc", prop, tier, seed, "-", fb)))
    errs = []
    for n, p in procs:
        _, err = p.communicate()
        if p.returncode:
            errs.append("%s worker: %s" % (n, err.decode()[-2500:]))
    sym = pickle.load(open(fa, "rb")) if os.path.exists(fa) else []
    conc = pickle.load(open(fb, "rb")) if os.path.exists(fb) else []

    # ---- replay of counter-models
    replays = []
    models_ = [(r["harness"], x["model"]) for r in sym 
               for x in r.get("refuted", []) + r.get("unknown_models", []) + ((r.get("bmc") or {}).get("refuted") or [])]
    if models_ and a.only != "sym":
        with open(fi, "wb") as f:
            pickle.dump(models_, f)
        p = spawn("conc", prop, tier, seed, fi, fr)
        _, err = p.communicate()
        if p.returncode:
            errs.append("replay worker: " + err.decode()[-1500:])
        if os.path.exists(fr):
            replays = pickle.load(open(fr, "rb"))

    # ---- aggregate
    violations, notes = [], []
    obligations = discharged = unknown = refuted = 0
    solver_s = 0.0
    labels, functions, contracts, undecided, per_h = {}, {}, {}, [], {}
    proved_h, vac = [], []
    for r in sym:
        if "crash" in r:
            undecided.append("%s: engine %s" % (r["harness"], r["crash"]))
            notes.append(r.get("tb", ""))
            continue
        nv = 0
        for l, d in r["vcs"].items():
            k = r["harness"] + ": " + l
            labels[k] = d
            obligations += d["valid"] + d["refuted"] + d["unknown"]
            nv += d["valid"]
            discharged += d["valid"]
            unknown += d["unknown"]
            refuted += d["refuted"]
            if d["unknown"]:
                undecided.append("%s: %s: solver answered unknown" % (r["harness"], l))
        solver_s += r["solver_s"]
        for u in r["unsupported"]:
            undecided.append("%s: %s" % (r["harness"], u))
        for f, n in r["functions"].items():
            functions[f] = functions.get(f, 0) + n
        for f, n in r["contracts_used"].items():
            contracts[f] = contracts.get(f, 0) + n
        conc_cov = {c for _, x in conc for c in (x.get("covers") or ()) if x.get("harness") == r["harness"]}
        missing = [c for c, ok in r["covers"].items() if not ok and c not in conc_cov]
        if r["completed"] == 0 or nv == 0:
            vac.append(r["harness"])
            undecided.append("%s: vacuous (no completed path or no obligation)" % r["harness"])
        ok = not r["unsupported"] and not any(d["unknown"] or d["refuted"] for d in r["vcs"].values()) and r["harness"] not in vac
        if missing:
            undecided.append("%s: precondition not shown satisfiable: %s" % (r["harness"], missing))
            ok = False
        if r.get("bmc"):
            undecided.append("%s: bounded re-exploration (lengths <= 3): %s, %d VCs %s" % (
                r["harness"], "clean" if r["bmc"]["clean"] else "not clean", r["bmc"]["vcs"], r["bmc"]["unsupported"]))
        per_h[r["harness"]] = {"proved": ok, "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2),
                               "obligations": sum(sum(d[s] for s in ("valid", "refuted", "unknown")) for d in r["vcs"].values())}
        if ok:
            proved_h.append(r["harness"])
    evals = skips = checks = nerr = 0
    hashes, samples, cerr, conc_h = set(), [], [], {}
    for t, r in conc:
        if "crash" in r:
            notes.append("conc %s: %s %s" % (t[1], r["crash"], r.get("tb", "")))
            cerr.append("%s: %s" % (t[1], r["crash"]))
            continue
        evals += r["evaluations"]
        skips += r["skips"]
        checks += r["checks"]
        nerr += r["n_errors"]
        hashes |= {r["harness"] + x for x in r["hashes"]}
        if len(samples) < 6 and c_first(conc_h, r["harness"]):
            samples += [{"harness": r["harness"], "input": s} for s in r["samples"][:1]]
        conc_h[r["harness"]] = conc_h.get(r["harness"], 0) + r["evaluations"]
        for e in r["errors"]:
            cerr.append("%s: %s" % (r["harness"], e["error"]))
            notes.append(e["tb"])
        violations += r["violations"]
    reproduced = set()
    for (t, r) in replays:
        if "crash" in r:
            continue
        for v in r["violations"]:
            v["from_countermodel"] = True
            violations.append(v)
            reproduced.add(r["harness"])

    # ---- verdict
    exit_code = 0
    out_lines = []
    rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if os.path.exists(rp):
        os.unlink(rp)
    if violations:
        v = next((x for x in violations if x.get("from_countermodel")), violations[0])
        json.dump(jsonable({"property": prop, "failed_obligation": v["label"], "harness": v["harness"], "input": v["input"],
                            "observed": v["info"], "found_by": "verifier counterexample" if v.get("from_countermodel") else "contract evaluation",
                            "refuted_obligations": [k for k, d in labels.items() if d["refuted"]],
                            "how_to_replay": "%s check.py --replay evidence/replay_%s.json (run in /verif)" % (PY, prop),
                            "all": violations[:5]}), open(rp, "w"), indent=1, default=str)
        out_lines.append("failed obligation: %s / %s: %s" % (v["harness"], v["label"], str(v["info"])[:300]))
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        exit_code = 1
    elif alarm_refuted(sym):
        rr = alarm_refuted(sym)
        h, x = rr[0]
        json.dump(jsonable({"property": prop, "failed_obligation": x["label"], "harness": h, "solver": "z3: sat (negated obligation)",
                            "model": x["model"], "path_condition_and_goal": x["path"],
                            "note": "the counter-model did not reproduce on the real code"}), open(rp, "w"), indent=1, default=str)
        out_lines.append("failed obligation: %s / %s" % (h, x["label"]))
        out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        exit_code = 1
    elif (obligations == 0 and evals == 0) or (errs and not conc and not sym):
        exit_code = 3
    m = load_meta(prop)
    bounded = m.get("bounded", [])
    total_h = len(per_h)
    level = m.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": obligations, "discharged": discharged,
              "checker_cmd": "%s check.py %s --tier %s (z3 %s via python API)" % (PY, prop, tier, zver()),
              "trusted_base": m.get("trusted", []) + BASE_TRUST,
              "evaluations": evals, "distinct_nontrivial": len(hashes),
              "rule": "contract evaluated on the real code with seeded inputs; non-trivial = at least one postcondition was evaluated; distinct by input",
              "samples": samples[:6],
              "explanation": m.get("explanation", ""),
              "harnesses_proved": sorted(proved_h), "harnesses_with_proof_stage": total_h, "per_harness": per_h,
              "obligation_labels": {k: d["valid"] + d["refuted"] + d["unknown"] for k, d in list(labels.items())[:120]},
              "functions_executed_symbolically": dict(sorted(functions.items())),
              "contracts_used_at_call_sites": contracts,
              "backend": backends(labels), "solver_s": round(solver_s, 2), "unknown": unknown, "refuted": refuted,
              "undecided": undecided[:40], "bounded_stand_ins": bounded, "bounded_evaluations_per_harness": conc_h,
              "skipped_by_precondition": skips, "postcondition_evaluations": checks,
              "harness_errors": nerr, "countermodels_replayed": len(replays)},
          "assumptions": m.get("assumptions", []) + BASE_ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations) + (1 if refuted and not violations else 0)}
    if tier == "thorough" and a.only != "conc":
        ev["coverage"]["cross_check"] = cross_check(sym)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for k in m.get("known", []):
        print(k)
    print("%s %s: obligations %d discharged %d unknown %d refuted %d; harnesses proved %d/%d; evaluations %d (distinct %d, skipped %d, errors %d); %.1fs" % (
        prop, tier, obligations, discharged, unknown, refuted, len(proved_h), total_h, evals, len(hashes), skips, nerr, time.time() - t0))
    if a.verbose or exit_code == 3:
        for u in undecided:
            print("  undecided:", u)
        for c in sorted(set(cerr))[:10]:
            print("  conc error:", c)
        for e in errs:
            print("  worker error:", e)
        for n in notes[:4]:
            print("  note:", n)
        for k, d in labels.items():
            if d["refuted"] or d["unknown"]:
                print("  VC", k, d)
        for h, d in per_h.items():
            print("  harness", h, d)
        for r in sym:
            for x in r.get("refuted", [])[:3]:
                print("  refuted", r["harness"], x["label"], x["model"], x["detail"])
        print("  functions:", " ".join(sorted(functions)))
    for l in out_lines:
        print(l)
    return exit_code


def alarm_refuted(sym):
    """refuted obligations that count as an alarm without a reproduced input: not those of a harness with unbounded
    inputs whose complete bounded re-exploration was clean (a dropped loop invariant, not a wrong result)"""
    return [(r["harness"], x) for r in sym for x in r.get("refuted", [])
            if not (r["bmc"] and r["bmc"]["clean"] and r["bmc"]["unbounded_inputs"])]


def backends(labels):
    out = {}
    for d in labels.values():
        for k in ("z3", "cvc5", "simplifier"):
            if d.get(k):
                out[k] = out.get(k, 0) + d[k]
    return out


def c_first(d, k):
    return k not in d


def zver():
    try:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


BASE_TRUST = [
    "CPython 3.12 executes the instrumented module as it executes the original (rewriting rules: vc/instrument.py)",
    "engine: path exploration, symbolic value models and loop cut (vc/core.py, vc/values.py, vc/loops.py, vc/models.py)",
    "z3 (verification conditions re-discharged with cvc5 in the thorough tier)"]
BASE_ASSUME = [
    "machine floats treated as mathematical reals in Stage A (Stage B runs the real floats)",
    "python ints are mathematical ints (exact)",
    "an obligation listed under 'undecided' is not counted as discharged; Stage B then decides within its bound"]


def load_meta(prop):
    from vc import harness as hz       # noqa
    m = load_property(prop)
    return getattr(m, "META", {})


def cross_check(sym):
    """thorough: re-discharge the recorded VCs with cvc5"""
    import concurrent.futures
    import tempfile
    jobs = []
    for r in sym:
        for label, smt2 in r.get("smt2", []):
            jobs.append((r["harness"], label, smt2))
    jobs = jobs[:600]

    def go(j):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + j[2])
        try:
            o = subprocess.run(["cvc5", "--strings-exp", "--tlimit=10000", f.name], capture_output=True, text=True, timeout=30).stdout
        except subprocess.TimeoutExpired:
            o = "timeout"
        os.unlink(f.name)
        return o.strip().split("\n")[0][:20] if o.strip() else "error"
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        rs = list(p.map(go, jobs))
    c = {}
    for x in rs:
        c[x] = c.get(x, 0) + 1
    return {"solver": "cvc5", "vcs": len(jobs), "results": c,
            "disagreements": [jobs[i][:2] for i, x in enumerate(rs) if x == "sat"][:10]}


def replay(path):
    """re-run a replay file's failing input against the real code in /repo"""
    import random
    d = json.load(open(path))
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, REPO)
    from vc import harness as hz
    load_property(d["property"])
    h = [x for x in hz.REGISTRY[d["property"]] if x.name == d["harness"]][0]
    if "input" not in d:
        print("no failing input recorded; failed obligation:", d["failed_obligation"])
        return 0
    r = eval_once(h, random.Random("replay"), d["input"])
    print({k: v for k, v in r.items() if k != "log"})
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        if sys.argv[2] == "sym":
            worker_sym(sys.argv[3], sys.argv[4], sys.argv[5])
        else:
            worker_conc(sys.argv[3], sys.argv[4], int(sys.argv[5]), None if sys.argv[6] == "-" else sys.argv[6], sys.argv[7])
        sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
