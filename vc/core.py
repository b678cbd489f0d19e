"""Path explorer and verification-condition discharge.

Execution model: a harness is run by CPython; symbolic values (vc.values) fork at
``__bool__``.  A fork consults the current decision trace; a new decision asks z3 which
sides are feasible and schedules the other side.  Every ``prove`` is one verification
condition  (path condition |= goal), discharged by z3 and recorded.
"""
import time
import z3
from fractions import Fraction

z3.set_param("smt.random_seed", 1)


class VCEngineException(BaseException):
    """Engine control flow. BaseException so that the code under verification cannot catch it."""


class PathEnd(VCEngineException):
    """The current path is over (infeasible / loop iteration closed)."""


class Unsupported(VCEngineException):
    """Construct outside the engine's reach: the harness is *undecided*, never a violation."""


class Restart(VCEngineException):
    """Exploration facts changed (loop invariant candidates, modified heap): start again."""


class Budget(VCEngineException):
    pass


CUR = None          # current Explorer


def ex():
    if CUR is None:
        raise RuntimeError("no symbolic execution under way")
    return CUR


class VC:
    __slots__ = ("label", "status", "model", "secs", "smt2", "path", "detail", "core", "via", "draws")

    def __init__(self, label, status, secs=0.0, model=None, smt2=None, path=None, detail="", via="z3"):
        self.label, self.status, self.secs = label, status, secs
        self.model, self.smt2, self.path, self.detail, self.via = model, smt2, path, detail, via


def zstr(x):
    s = str(x)
    return s if len(s) < 4000 else s[:4000] + " ...[truncated]"


class Explorer:
    def __init__(self, query_ms=8000, budget_s=300, max_paths=20000, keep_smt2=False, bound=None):
        self.bound = bound
        self.used_unbounded = False
        self.query_ms = query_ms
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.keep_smt2 = keep_smt2
        self.solver_s = 0.0
        self.queries = 0
        # Houdini state, survives restarts
        self.loop_cands = {}      # loop key -> set of dropped candidate ids
        self.loop_mods = {}       # loop key -> set of heap allocation ids modified
        self.loop_seen = {}
        self.decisions_forced = None
        self.notes = []
        self.contracts_used = {}
        self.functions_entered = {}
        self.assumed = set()

    # ---- driving -------------------------------------------------------------------
    def explore(self, harness):
        """Runs harness(self) on every path. Returns nothing; results in self.vcs etc."""
        global CUR
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        for attempt in range(3000):
            self.vcs, self.paths, self.unsupported, self.covers = [], 0, [], {}
            self.completed = 0
            stack = [[]]
            restarted = False
            while stack:
                trace = stack.pop()
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    self.unsupported.append("exploration budget exhausted after %d paths" % self.paths)
                    break
                self.paths += 1
                self._begin(trace, stack)
                prev, CUR_ = CUR, self
                CUR = self
                try:
                    harness(self)
                    self.completed += 1
                except PathEnd:
                    pass
                except Unsupported as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if "/repo/" in (f.filename or "")]
                    w = (" at %s:%d" % (where[-1].filename, where[-1].lineno)) if where else ""
                    self.unsupported.append(str(e) + w)
                    if len(self.unsupported) > 40:
                        break
                except Restart:
                    restarted = True
                    break
                except Budget:
                    self.unsupported.append("exploration budget exhausted after %d paths" % self.paths)
                    break
                finally:
                    CUR = prev
            if not restarted:
                break
        else:
            self.unsupported.append("invariant inference did not converge")
        self.wall = time.time() - t0

    def _begin(self, trace, stack):
        self.trace = list(trace)
        self.pos = 0
        self.stack = stack
        self.pc = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.query_ms)
        self.solver.set("mbqi", False)       # E-matching only: quantified queries answer quickly (unsat or unknown)
        self.fresh_n = {}
        self.alloc = 0
        self.loop_stack = []
        self.heap = {}
        self.vfs = {}
        self.inputs = {}
        self.ghosts = []
        self.draws = {}
        self.tables = {}
        self.model_cache = {}
        self.in_spec = 0
        self.memo = {}
        self.has_bvars = False
        self.closed_ids = {}

    # ---- logic ---------------------------------------------------------------------
    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s!%d" % (base, n)

    def bvar(self, base="j", sort=None):
        """a constant that will be bound by a quantifier: it may never reach an assumption or a branch unbound"""
        self.has_bvars = True
        return z3.Const(self.fresh(base) + "!b", z3.IntSort() if sort is None else sort)

    def _closed(self, f):
        if not self.has_bvars:
            return
        seen, todo = self.closed_ids, [f]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            if z3.is_const(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().endswith("!b"):
                    raise Unsupported("element-wise operation needs a case split or a fresh value")
                seen[i] = t
                continue
            if z3.is_quantifier(t):
                todo.append(t.body())
            else:
                todo.extend(t.children())
            seen[i] = t

    def assume(self, f):
        f = zbool(f)
        if z3.is_true(f):
            return
        self._closed(f)
        self.pc.append(f)
        self.solver.add(f)
        if z3.is_false(f):
            raise PathEnd()

    def assume_checked(self, f):
        self.assume(f)
        if self._check() == z3.unsat:
            raise PathEnd()

    def _check(self, *assumptions):
        if time.time() > self.deadline:
            raise Budget()
        t = time.time()
        self.queries += 1
        r = self.solver.check(*assumptions)
        self.solver_s += time.time() - t
        return r

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._closed(cond)
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            self._take(cond, v)
            return v
        # new decision
        st = self._check(cond)
        sf = self._check(z3.Not(cond)) if st != z3.unsat else z3.sat
        if st == z3.unsat:
            v = False
            if sf == z3.unsat:
                raise PathEnd()
        elif sf == z3.unsat:
            v = True
        else:
            v = True
            self.stack.append(self.trace[:self.pos] + [False])
        self.trace.append(v)
        self.pos += 1
        self._take(cond, v)
        return v

    def _take(self, cond, v):
        c = cond if v else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)

    def choose(self, n, label=""):
        """Nondeterministic concrete choice 0..n-1 (all explored)."""
        if n <= 0:
            raise PathEnd()
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            return v
        for i in range(n - 1, 0, -1):
            self.stack.append(self.trace[:self.pos] + [i])
        self.trace.append(0)
        self.pos += 1
        return 0

    def entails(self, f):
        f = zbool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.solver.set("timeout", min(self.query_ms, 2000))
        try:
            return self._check(z3.Not(f)) == z3.unsat
        finally:
            self.solver.set("timeout", self.query_ms)

    def prove(self, label, f, detail=""):
        """One verification condition."""
        f = zbool(f)
        t = time.time()
        s = z3.simplify(f)
        if z3.is_true(s):
            self.vcs.append(VC(label, "valid", 0.0, via="simplifier"))
            return True
        smt2 = None
        if self.keep_smt2:
            s2 = z3.Solver()
            for p in self.pc:
                s2.add(p)
            s2.add(z3.Not(f))
            smt2 = s2.to_smt2()
        via = "z3"
        self.solver.set("timeout", min(self.query_ms, 1500))
        r = self._check(z3.Not(f))
        self.solver.set("timeout", self.query_ms)
        cand = None
        if r == z3.unknown:
            try:
                cand = self.extract(self.solver.model())    # candidate counter-model: only ever used for replay
            except z3.Z3Exception:
                cand = None
            s2 = z3.Solver()
            s2.set("timeout", self.query_ms)
            for p in self.pc:
                s2.add(p)
            s2.add(z3.Not(f))
            t2 = time.time()
            self.queries += 1
            # second attempt: cvc5; third: fresh z3, full strategy
            model = None
            if cvc5_unsat(s2.to_smt2(), self.query_ms):
                r, via = z3.unsat, "cvc5"
            else:
                r = s2.check()
                model = s2.model() if r == z3.sat else None
            self.solver_s += time.time() - t2
        else:
            model = self.solver.model() if r == z3.sat else None
        status = {"unsat": "valid", "sat": "refuted", "unknown": "unknown"}[str(r)]
        vc = VC(label, status, time.time() - t, smt2=smt2, detail=detail, via=via)
        vc.draws = dict(self.draws)
        if status == "unknown" and cand is not None:
            vc.model = cand
        if status == "refuted":
            vc.model = self.extract(model)
            if not any(v.status == "refuted" and v.label == label for v in self.vcs):
                vc.path = [zstr(p) for p in self.pc[-40:]] + ["goal: " + zstr(f)]
            vc.detail = detail
        self.vcs.append(vc)
        if status == "valid":
            self.assume(f)
        return status == "valid"

    def fail(self, label, detail=""):
        """An obligation whose goal is False (e.g. an unexpected exception) on this path."""
        return self.prove(label, z3.BoolVal(False), detail)

    def cover(self, label):
        if label in self.covers and self.covers[label]:
            return
        r = self._check()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", 3000)
            for p in self.pc:
                s2.add(p)
            r = s2.check()
        self.covers[label] = r == z3.sat

    # ---- inputs / models -----------------------------------------------------------
    def extract(self, model):
        out = {}
        for name, (kind, term) in self.inputs.items():
            try:
                out[name] = term(model) if callable(term) else model_value(model, term)
            except Exception as e:          # pragma: no cover
                out[name] = None
        for name, v in self.draws.items():
            out.setdefault(name, v)
        return out


def cvc5_unsat(smt2, ms):
    import subprocess
    import tempfile
    import os
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
    try:
        o = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % min(ms, 5000), f.name], capture_output=True, text=True, timeout=20)
        return o.stdout.strip() == "unsat"
    except (OSError, subprocess.SubprocessError):
        return False
    finally:
        os.unlink(f.name)


def model_value(model, term):
    v = model.eval(term, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_string_value(v):
        return v.as_string()
    return None


def zbool(f):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    z = getattr(f, "z", None)
    if z is not None and not isinstance(f, z3.ExprRef):
        f = z
    if type(f).__name__ == "bool_":
        return z3.BoolVal(bool(f))
    assert isinstance(f, z3.BoolRef), ("not a boolean", type(f), f)
    return f
