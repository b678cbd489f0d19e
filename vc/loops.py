"""Inductive cut of a for-loop over a symbolic sequence, invariants by Houdini over
templates supplied by the specification (ghost sequences / ghost maps)."""
import numbers
import z3
from . import core
from .core import ex, PathEnd, Restart, Unsupported
from .values import *
from .values import Leaf, Const


class Poison(Sym):
    """a variable whose value after an arbitrary number of iterations is unknown"""
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("value of loop-carried variable %r is not captured by an invariant"
                          % object.__getattribute__(self, "_n"))
    for _m in ("__bool__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ "
               "__truediv__ __rtruediv__ __getitem__ __setitem__ __call__ __iter__ __len__ __contains__ __hash__ "
               "__str__ __format__ __int__ __float__ __index__ __mod__ __and__ __or__ __invert__ __neg__").split():
        locals()[_m] = _bad
    del _m

    def __getattr__(self, a):
        if a.startswith("__") or a in ("z", "nan"):
            raise AttributeError(a)
        self._bad()


class Frame:
    def __init__(self, lid, seq, loc, mods, targets):
        e = ex()
        self.e = e
        base = "%s@%d" % (lid, e.alloc)
        self.key = base
        self.seq = seq
        self.targets = set(targets)
        self.kinds = e.loop_seen.setdefault(base, {})          # var -> kind overrides
        self.heapmods = e.loop_mods.setdefault(base, set())
        self.dropped = e.loop_cands.setdefault(base, set())
        self.alloc_mark = e.alloc
        self.mods = set(self.heapmods)
        self.k = z3.Int(e.fresh("k"))
        self.n = seq.n
        self.init = {m: loc[m] for m in mods if m in loc and m not in self.targets}
        self.names = mods
        self.heap_init = {}
        self.heapmods = {a for a in self.heapmods if a <= e.alloc}
        self.mods = set(self.heapmods)
        al = e.alloc
        for a in sorted(self.heapmods):
            obj = e.heap.get(a)
            if obj is None:
                raise Unsupported("loop modifies an unidentified object")
            self.heap_init[a] = obj.copy() if hasattr(obj, "copy") else obj
        e.alloc = al        # the snapshots are not program objects: keep allocation numbering stable
        self.vals = {}
        # ---- establish (k = 0), on the pre-loop state
        self.cands = self._candidates()
        zero = z3.IntVal(0)
        dirty = False
        for cid, f in self.cands:
            if cid in self.dropped:
                continue
            if not self._holds(f, zero, self.init, pre=True):
                self.dropped.add(cid)          # nothing was assumed from it yet on this path
                dirty = True
        if dirty:
            raise Restart()
        for g in e.ghosts:
            g.instantiate(zero, self)
        # ---- havoc
        e.assume(z3.And(self.k >= 0, self.k <= self.n))
        for m in mods:
            self.vals[m] = self._havoc(m)
        for a in sorted(self.heapmods):
            self._havoc_heap(e.heap[a])
        for g in e.ghosts:
            g.instantiate(self.k, self)
        for cid, f in self.cands:
            if cid in self.dropped:
                continue
            c = self._eval(f, self.k, self.vals)
            if c is not None:
                e.assume(c)
        e.loop_stack.append(self)

    # ---- candidates
    def _candidates(self):
        out = []
        e = self.e
        for m in self.names:
            if m in self.targets or m not in self.init:
                continue
            v = self.init[m]
            kind = self.kinds.get(m) or _kind(v)
            if kind in ("int", "real", "bool", "str", "nreal"):
                for g in e.ghosts:
                    for t, f in g.scalar_templates(kind):
                        out.append(((m, g.name, t), (lambda k, vals, m=m, f=f: f(vals[m], k))))
                out.append(((m, "init"), (lambda k, vals, m=m: _veq(vals[m], self.init[m]))))
                if kind == "int":
                    out.append(((m, "init+k"), (lambda k, vals, m=m: vals[m] == self.init[m] + SymNum(k))))
                    out.append(((m, ">=init"), (lambda k, vals, m=m: vals[m] >= self.init[m])))
            elif kind == "list":
                out += self._list_cands(("v", m), lambda vals, m=m: vals[m], v)
            elif kind == "dict":
                out += self._dict_cands(("v", m), lambda vals, m=m: vals[m], v)
        for a in sorted(self.heapmods):
            o = e.heap[a]
            if isinstance(o, VList):
                out += self._list_cands(("h", a), lambda vals, o=o: o, self.heap_init[a])
            elif isinstance(o, VDict):
                out += self._dict_cands(("h", a), lambda vals, o=o: o, self.heap_init[a])
        return out

    def _list_cands(self, cid, getter, init):
        out = []
        n0 = init.sym[0] if init.sym is not None else z3.IntVal(list.__len__(init))

        def ln(v):
            return v.sym[0] if v.sym is not None else z3.IntVal(list.__len__(v))
        out.append((cid + ("len=k",), lambda k, vals: SymBool(ln(getter(vals)) == n0 + k)))
        out.append((cid + ("len=init",), lambda k, vals: SymBool(ln(getter(vals)) == n0)))
        out.append((cid + ("len>=0",), lambda k, vals: SymBool(ln(getter(vals)) >= n0)))
        for g in self.e.ghosts:
            for t, f in g.list_templates():
                out.append((cid + (g.name, t), lambda k, vals, f=f: f(getter(vals), k)))
        return out

    def _dict_cands(self, cid, getter, init):
        out = []
        for g in self.e.ghosts:
            for t, f in g.dict_templates():
                out.append((cid + (g.name, t), lambda k, vals, f=f: f(getter(vals), k)))
        return out

    def _eval(self, f, k, vals):
        try:
            return core.zbool(f(k, vals))
        except Unsupported:
            return None
        except (KeyError, AssertionError, AttributeError, TypeError):
            return None

    def _holds(self, f, k, vals, pre=False):
        c = self._eval(f, k, vals)
        return c is not None and self.e.entails(c)

    def drop(self, cid, why):
        self.dropped.add(cid)
        raise Restart()

    # ---- havoc
    def _havoc(self, m):
        e = self.e
        if m in self.targets or m not in self.init:
            return Poison(m)
        v = self.init[m]
        kind = self.kinds.get(m) or _kind(v)
        nm = e.fresh("loop_" + m)
        if kind == "int":
            return SymNum(z3.Int(nm))
        if kind == "real":
            return SymNum(z3.Real(nm))
        if kind == "nreal":
            return SymNum(z3.Real(nm), z3.Bool(nm + "_nan"))
        if kind == "bool":
            return SymBool(z3.Bool(nm))
        if kind == "str":
            return SymStr([Opaque(z3.String(nm))])
        if kind == "list":
            w = VList()
            w.set_sym(*_fresh_list(e, nm, v, self.kinds.get(("shape", m))))
            return w
        if kind == "same":
            return v
        return Poison(m)

    def _havoc_heap(self, o):
        e = self.e
        if isinstance(o, VList):
            o.set_sym(*_fresh_list(e, "heapL", o, self.kinds.get(("hshape", o.aid))))
        elif isinstance(o, VDict):
            sh = self.kinds.get(("hshape", o.aid))
            if sh is None:
                if o.sym is None:
                    raise Unsupported("map mutated in a loop before its shape is known")
                sh = (o.sym.kshape, o.sym.vshape)
            ks, vs = sh
            nm = e.fresh("heapM")
            doms = [SORTS[x]() for x in leaves(ks)]
            dom = z3.Array(nm + "_dom", *doms, z3.BoolSort())
            vals = [z3.Array("%s_v%d" % (nm, i), *doms, SORTS[x]()) for i, x in enumerate(leaves(vs))]
            o.set_sym(SymMap(ks, vs, dom, vals))
        else:
            raise Unsupported("object of type %s mutated in a symbolic loop" % type(o).__name__)

    # ---- protocol used by instrumented code
    def var(self, m):
        return self.vals[m]

    def enter(self):
        if self.e.branch(self.k < self.n):
            return True
        self.e.loop_stack.remove(self)
        return False

    def elem(self):
        return self.seq.get(self.k)

    def broke(self):
        if self in self.e.loop_stack:
            self.e.loop_stack.remove(self)

    def discover(self, obj, shape=None):
        """called by tracked objects that are mutated inside the loop"""
        self.e.loop_mods[self.key].add(obj.aid)
        if shape is not None and self.kinds.get(("hshape", obj.aid)) is None:
            try:
                self.kinds[("hshape", obj.aid)] = shape()
            except Unsupported:
                pass
        raise Restart()

    def close(self, loc):
        e = self.e
        k1 = self.k + 1
        for g in e.ghosts:
            g.instantiate(k1, self)
        # kinds may widen
        for m in self.names:
            if m in self.targets or m not in self.init or isinstance(self.vals.get(m), Poison):
                continue
            new = loc.get(m)
            old = self.kinds.get(m) or _kind(self.init[m])
            nk = _kind(new)
            if nk == old or old == "same" and new is self.init[m]:
                continue
            if {nk, old} == {"int", "real"}:
                if old == "int":
                    self.kinds[m] = "real"
                    raise Restart()
                continue
            self.kinds[m] = "poison"
            raise Restart()
        for a in sorted(self.heapmods):
            o = e.heap[a]
            if isinstance(o, VList) and o.sym is not None and o.sym[1] is not None and self.kinds.get(("hshape", a)) is None:
                self.kinds[("hshape", a)] = o.sym[1]
                raise Restart()
        vals = {m: loc.get(m) for m in self.names}
        dirty = False
        for cid, f in self.cands:
            if cid in self.dropped:
                continue
            c = self._eval(f, k1, vals)
            if c is None or not e.entails(c):
                self.dropped.add(cid)
                dirty = True
        if dirty:
            raise Restart()
        for cid, f in self.cands:
            if cid not in self.dropped:
                e.vcs.append(core.VC("invariant %s %s preserved" % (self.key, cid), "valid"))
        raise PathEnd()


def _veq(a, b):
    r = value_eq(a, b)
    return r


def _kind(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, SymNum):
        return "int" if v.isint else ("real" if v.nan is None else "nreal")
    if isinstance(v, numbers.Integral):
        return "int"
    if isinstance(v, float):
        return "real"
    if isinstance(v, (str, SymStr)):
        return "str"
    if isinstance(v, VList):
        return "list"
    if isinstance(v, VDict):
        return "dict"
    return "poison"


def _fresh_list(e, nm, v, shape):
    if v.sym is not None and v.sym[1] is not None:
        shape = v.sym[1]
    if shape is None and list.__len__(v):
        shape = shape_of(list.__getitem__(v, 0))
    n = z3.Int(nm + "_len")
    e.assume(n >= 0)
    if shape is None:
        return (n, None, [])
    return (n, shape, [z3.Array("%s_a%d" % (nm, i), z3.IntSort(), SORTS[x]()) for i, x in enumerate(leaves(shape))])


class Ghost:
    """specification sequence: fn(i) -> value (python/symbolic) for a z3 Int i, and unfold(i) -> axiom or None"""
    def __init__(self, name, fn, unfold=None, kinds=None):
        self.name, self.fn, self.unfold = name, fn, unfold
        self.kind = kinds

    def instantiate(self, k, frame):
        if self.unfold is None:
            return
        for i in (k, k - 1, k + 1):
            f = self.unfold(i)
            if f is not None:
                ex().assume(f)

    def scalar_templates(self, kind):
        def at_k(v, k):
            return _veq(v, self.fn(k))

        def at_prev(v, k):
            return _veq(v, self.fn(z3.If(k >= 1, k - 1, z3.IntVal(0))))
        return [("=g(k)", at_k), ("=g(k-1)", at_prev)]

    def list_templates(self):
        def pref(v, k):
            if v.sym is None:
                m = list.__len__(v)
                return and_(*[_veq(list.__getitem__(v, i), self.fn(z3.IntVal(i))) for i in range(m)]) if m else True
            if v.sym[1] is None:
                return SymBool(v.sym[0] == 0)
            j = ex().bvar("j")
            body = core.zbool(_veq(v.elem(j), self.fn(j)))
            return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.sym[0]), body)))
        return [("prefix", pref)]

    def dict_templates(self):
        return []


class GhostMap(Ghost):
    """specification map after k iterations: dom(key, k) -> bool, val(key) -> value"""
    def __init__(self, name, kshape, dom, val):
        self.name, self.kshape, self.dom, self.val = name, kshape, dom, val

    def instantiate(self, k, frame):
        pass

    def scalar_templates(self, kind):
        return []

    def list_templates(self):
        return []

    def dict_templates(self):
        def eqmap(v, k):
            zs = [ex().bvar("q", SORTS[x]()) for i, x in enumerate(leaves(self.kshape))]
            key = build(self.kshape, zs)
            if v.sym is None:
                m = or_(*[value_eq(kk, key) for kk in dict.keys(v)]) if dict.__len__(v) else False
                return SymBool(z3.ForAll(zs, core.zbool(m) == core.zbool(self.dom(key, k))))
            d = core.zbool(v.sym.contains(key))
            body = z3.And(d == core.zbool(self.dom(key, k)),
                          z3.Implies(d, core.zbool(value_eq(v.sym.raw(key), self.val(key)))))
            return SymBool(z3.ForAll(zs, body))
        return [("map", eqmap)]
