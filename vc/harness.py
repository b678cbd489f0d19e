"""One harness = one contract, written once, evaluated in two modes:
   SymH  : inputs are symbolic, `ensure` generates verification conditions (proof);
   ConcH : inputs are concrete (counter-models replayed, or seeded random), the real,
           un-instrumented code runs, `ensure` is evaluated (replay / bounded stand-in)."""
import importlib
import math
import os
import random
import shutil
import tempfile
import z3
from fractions import Fraction
from . import core, values, models, loops
from .values import *
from .values import Leaf, Const

REGISTRY = {}        # property -> list of harness objects


class Violation(Exception):
    def __init__(self, label, info):
        Exception.__init__(self, label)
        self.label, self.info = label, info


class Skip(Exception):
    """assumption not met by these inputs"""


class Harness:
    def __init__(self, prop, name, fn, proof, conc, contracts, budget, targets, query_ms, bounded, thorough_conc, enum):
        self.prop, self.name, self.fn, self.proof, self.conc = prop, name, fn, proof, conc
        self.contracts, self.budget, self.targets, self.query_ms = contracts, budget, targets, query_ms
        self.bounded = bounded
        self.thorough_conc = thorough_conc
        self.enum = enum


def harness(prop, name=None, proof=True, conc=300, contracts=(), budget=150, targets=(), query_ms=8000, bounded=None,
            thorough_conc=None, enum=None):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, proof, conc, tuple(contracts), budget, tuple(targets), query_ms, bounded,
                    thorough_conc or conc * 10, enum)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


class Contract:
    """Assumed at call sites (stub), checked by its own harness(es) against the body."""
    def __init__(self, key, fresh, post, pre=None):
        self.key, self.fresh, self.post, self.pre = key, fresh, post, pre
        models.CONTRACTS[key] = self

    def stub(self, e, *args, **kw):
        H = SymH(e)
        if self.pre is not None:
            for label, c in self.pre(H, *args, **kw):
                e.prove("%s requires %s" % (self.key, label), c)
        r = self.fresh(H, *args, **kw)
        for label, c in self.post(H, r, *args, **kw):
            e.assume(c)
        return r


class Result:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return "Result(%r)" % (self.value if self.ok else self.exc,)


_NAMES = ("Sym", "VList", "VDict", "VSet", "Ghost", "Poison", "PosMap", "JsonText", "VFile", "FixText", "IntText", "NumText",
          "z3", "Opaque")


def engine_fault(x):
    """an exception of the engine, not of the code under contract"""
    tb = x.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and os.path.dirname(os.path.abspath(__file__)) in tb.tb_frame.f_code.co_filename and not isinstance(
            x, (KeyError, IndexError, ValueError, ZeroDivisionError, OverflowError, FileNotFoundError)):
        raise core.Unsupported("engine: %s: %s" % (type(x).__name__, str(x)[:160]))
    if isinstance(x, (RecursionError, z3.Z3Exception, NotImplementedError, AssertionError)) and not _raised_in_repo(x):
        raise core.Unsupported("engine: %s: %s" % (type(x).__name__, str(x)[:120]))
    if core.CUR is not None and getattr(core.CUR, "pandas_cells", False) and tb is not None and isinstance(
            x, (TypeError, ValueError, AttributeError, SystemError, FloatingPointError)) and any(
            n in tb.tb_frame.f_code.co_filename for n in ("/pandas/", "/numpy/", "/scipy/", "pandas/_libs")):
        raise core.Unsupported("library on symbolic cells: %s: %s" % (type(x).__name__, str(x)[:120]))
    if isinstance(x, (TypeError, AttributeError)) and any(n in str(x) for n in _NAMES):
        raise core.Unsupported("engine: %s: %s" % (type(x).__name__, str(x)[:160]))


def _raised_in_repo(x):
    tb = x.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and "/beep/" in tb.tb_frame.f_code.co_filename


def _detail(info):
    for x in (info if isinstance(info, tuple) else (info,)):
        if isinstance(x, Result) and not x.ok:
            import traceback
            try:
                tb = "".join(traceback.format_exception(x.exc)[-3:])
                return "raised %s: %s\n%s" % (type(x.exc).__name__, x.exc, tb)
            except KeyboardInterrupt:
                raise
            except BaseException:          # symbolic message
                return "raised %s" % type(x.exc).__name__
    try:
        return str(info)[:400] if info is not None and not deep_symbolic(info) else ""
    except core.Unsupported:          # a table with symbolic cells
        return ""
    except Exception:
        return ""


class BaseH:
    def mod(self, name):
        return importlib.import_module(name)

    def get(self, path):
        """'module:qual.name' -> attribute or None when the tree has no such name"""
        m, q = path.split(":")
        try:
            o = importlib.import_module(m)
        except ImportError:
            return None
        for p in q.split("."):
            o = getattr(o, p, None)
            if o is None:
                return None
        return o


def dec(fr):
    """exact decimal text of a Fraction when finite, else 12 digits"""
    fr = Fraction(fr)
    d = fr.denominator
    k = 0
    while d % 10 == 0:
        d //= 10
        k += 1
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d != 1:
        return "%.12g" % float(fr)
    k = 0
    while (fr * 10 ** k).denominator != 1:
        k += 1
    n = fr * 10 ** k
    s = str(abs(n.numerator)).rjust(k + 1, "0")
    s = s if k == 0 else s[:-k] + "." + s[-k:]
    return ("-" if fr < 0 else "") + s


# ------------------------------------------------------------------------------------ symbolic
class SymH(BaseH):
    sym = True
    bound = None            # bounded mode: unbounded inputs get every length 0..bound (loops run natively)

    def __init__(self, e):
        self.e = e
        self.bound = e.bound

    # draws
    def choice(self, name, options):
        i = self.e.choose(len(options))
        self.e.draws[name] = i
        return options[i]

    def _reg(self, name, term, kind):
        self.e.inputs[name] = (kind, term)

    def int(self, name, lo=None, hi=None, pool=None, gen=None):
        z = z3.Int(name)
        self._reg(name, z, "int")
        if lo is not None:
            self.e.assume(z >= lo)
        if hi is not None:
            self.e.assume(z <= hi)
        return SymNum(z)

    def real(self, name, lo=None, hi=None, nan=False, decimals=None, pool=None):
        z = z3.Real(name)
        self._reg(name, z, "real")
        if lo is not None:
            self.e.assume(z >= z3.RealVal(frac(lo)))
        if hi is not None:
            self.e.assume(z <= z3.RealVal(frac(hi)))
        if nan:
            b = z3.Bool(name + "?nan")
            self._reg(name + "?nan", b, "bool")
            return SymNum(z, b)
        return SymNum(z)

    def bool(self, name):
        z = z3.Bool(name)
        self._reg(name, z, "bool")
        return SymBool(z)

    def text(self, name, pool=None, notin=()):
        z = z3.String(name)
        self._reg(name, z, "str")
        for t in notin:
            self.e.assume(z != z3.StringVal(t))
        return SymStr([Opaque(z)])

    def word(self, name, maxlen, banned="", pool=None):
        z = z3.String(name)
        self._reg(name, z, "str")
        return SymStr([Word(z, set(banned) | set("\r\n"), maxlen)])

    def numtext(self, name, lo=None, hi=None, decimals=None, pool=None, scinot=False):
        if decimals is not None:
            z = z3.ToReal(z3.Int(name + "#k")) / z3.RealVal(10 ** decimals)
            self._reg(name, z, "real")
            if lo is not None:
                self.e.assume(z >= z3.RealVal(frac(lo)))
            if hi is not None:
                self.e.assume(z <= z3.RealVal(frac(hi)))
            return SymStr([NumText(z, name)])
        r = self.real(name, lo, hi)
        return SymStr([NumText(r.z, name)])

    def inttext(self, name, lo=None, hi=None, width=0):
        z = self.int(name, lo, hi)
        return SymStr([IntText(z.z, width)])

    def fixtext(self, name, prec, lo=None, hi=None):
        k = z3.Int(name + "#k")
        z = z3.ToReal(k) / z3.RealVal(10 ** prec)
        self._reg(name, z, "real")
        if lo is not None:
            self.e.assume(z >= z3.RealVal(frac(lo)))
        if hi is not None:
            self.e.assume(z <= z3.RealVal(frac(hi)))
        return SymStr([FixText(z, prec)])

    def seq(self, name, shape, lo=None, hi=None, minlen=0, maxlen=None, concmax=8, pool=None, gen=None):
        """unbounded list; shape: 'int' | 'real' | 'nreal' | 'str' | tuple/dict of those"""
        sh = mkshape(shape)
        self.e.used_unbounded = True
        n = z3.Int(name + ".len")
        if self.bound is not None:
            lens = list(range(minlen, max(minlen, self.bound if maxlen is None else min(maxlen, self.bound)) + 1))
            n = z3.IntVal(lens[self.e.choose(len(lens))])
        self.e.assume(n >= minlen)
        if maxlen is not None:
            self.e.assume(n <= maxlen)
        arrs = [z3.Array("%s.%d" % (name, i), z3.IntSort(), SORTS[k]()) for i, k in enumerate(leaves(sh))]

        def get(i):
            v = build(sh, [z3.Select(a, i) for a in arrs])
            return v
        if lo is not None or hi is not None:
            j = self.e.bvar("jb")
            bs = []
            for a, k in zip(arrs, leaves(sh)):
                if k in ("int", "real"):
                    if lo is not None:
                        bs.append(z3.Select(a, j) >= lo)
                    if hi is not None:
                        bs.append(z3.Select(a, j) <= hi)
            if bs and self.bound is not None:
                for i in range(n.as_long()):
                    self.e.assume(z3.substitute(z3.And(bs), (j, z3.IntVal(i))))
            elif bs:
                self.e.assume(z3.ForAll([j], z3.And(bs)))

        def extract(model):
            m = core.model_value(model, n)
            m = min(m, 12)
            return [unflat(sh, [core.model_value(model, z3.Select(a, i)) for a in arrs]) for i in range(m)]
        self._reg(name, extract, "seq")
        return SymSeq(n, get, "list", name)

    def mapping(self, name, kshape, vshape, minlen=0, concmax=5, kgen=(None, None), vgen=(None, None)):
        """unbounded insertion-ordered dict with distinct keys"""
        ks, vs = mkshape(kshape), mkshape(vshape)
        self.e.used_unbounded = True
        n = z3.Int(name + ".len")
        if self.bound is not None:
            lens = list(range(minlen, max(minlen, min(self.bound, 2)) + 1))
            n = z3.IntVal(lens[self.e.choose(len(lens))])
        self.e.assume(n >= minlen)
        kl, vl = leaves(ks), leaves(vs)
        karr = [z3.Array("%s.k%d" % (name, i), z3.IntSort(), SORTS[x]()) for i, x in enumerate(kl)]
        varr = [z3.Array("%s.v%d" % (name, i), z3.IntSort(), SORTS[x]()) for i, x in enumerate(vl)]
        pos = z3.Function(name + ".pos", *[SORTS[x]() for x in kl], z3.IntSort())
        j = self.e.bvar("jm")
        at = [z3.Select(a, j) for a in karr]
        if self.bound is not None:
            for i in range(n.as_long()):
                self.e.assume(pos(*[z3.Select(a, i) for a in karr]) == i)
        else:
            self.e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), pos(*at) == j)))
        m = PosMap(ks, vs, n, karr, varr, pos)
        d = VDict()
        d.set_sym(m)

        def extract(model):
            c = min(core.model_value(model, n), 10)
            return [(unflat(ks, [core.model_value(model, z3.Select(a, i)) for a in karr]),
                     unflat(vs, [core.model_value(model, z3.Select(a, i)) for a in varr])) for i in range(c)]
        self._reg(name, extract, "map")
        return d

    # logic
    def assume(self, c):
        self.e.assume_checked(core.zbool(c)) if isinstance(c, Sym) else (None if c else self._end())

    def _end(self):
        raise core.PathEnd()

    def ensure(self, label, c, info=None):
        self.e.prove(label, c, detail=_detail(info))

    def cover(self, label):
        self.e.cover(label)

    def run(self, fn, *a, **k):
        try:
            return Result(True, models.call(fn, *a, **k))
        except Exception as x:
            engine_fault(x)
            return Result(False, exc=x)
        except BaseException as x:
            if type(x).__module__.startswith("beep."):
                return Result(False, exc=x)
            raise

    def case(self, c):
        """fork on a condition"""
        return bool(c)

    def forall(self, n, f):
        """condition: for all 0 <= i < n"""
        if isinstance(n, SymNum):
            i = self.e.bvar("i")
            return SymBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.z), core.zbool(f(SymNum(i))))))
        return and_(*[f(i) for i in range(n)]) if n else True

    def skolem(self, name, n):
        """an arbitrary index 0 <= i < n (path ends when n can only be 0)"""
        i = z3.Int(self.e.fresh(name))
        self.e.assume_checked(z3.And(i >= 0, i < znum(n)))
        return SymNum(i)

    def ensure_all(self, label, n, f, info=None):
        """obligation for an arbitrary index 0 <= i < n"""
        if not isinstance(n, SymNum):
            for i in range(n):
                self.ensure(label, f(i), info)
            return
        i = z3.Int(self.e.fresh("i"))
        self.e.assume_checked(z3.And(i >= 0, i < n.z))
        self.ensure(label, f(SymNum(i)), info)

    def len(self, x):
        return models._len(x)

    def at(self, x, i):
        """spec-side element access, no bounds fork"""
        if isinstance(x, SymSeq):
            return x.get(znum(i))
        if isinstance(x, VList) and x.sym is not None:
            return x.elem(znum(i))
        if isinstance(i, SymNum):
            return models._pick(x, i)
        return x[i]

    def ghost(self, name, fn, unfold=None):
        self.e.ghosts.append(loops.Ghost(name, lambda i: fn(SymNum(i)), (lambda i: core.zbool(unfold(SymNum(i)))) if unfold else None))

    def ghost_map(self, name, kshape, dom, val):
        self.e.ghosts.append(loops.GhostMap(name, mkshape(kshape), lambda key, k: dom(key, SymNum(k)), val))

    def recfun(self, name, base, step):
        """spec function f(0)=base, f(i)=step(i, f(i-1)); registered as a loop ghost"""
        b = base
        sort = z3.IntSort() if (not isinstance(b, SymNum) or b.isint) and not isinstance(b, float) else z3.RealSort()
        F = z3.Function(name, z3.IntSort(), sort)

        def fn(i):
            return SymNum(F(znum(i)))

        def unfold(i):
            return z3.And(F(0) == znum(b), z3.Implies(i.z >= 1, F(i.z) == znum(step(i, SymNum(F(i.z - 1))))))
        self.e.assume(F(0) == znum(b))
        self.ghost(name, fn, lambda i: SymBool(unfold(i)))
        fn.unfold = lambda i: self.e.assume(unfold(SymNum(znum(i))))
        return fn

    def num(self, x):
        """numeric value of a text or number, exactly (spec side)"""
        return parse_float(x)

    def close(self, a, b, tol):
        d = a - b
        return and_(d <= tol, d >= -tol)

    def eq(self, a, b):
        return value_eq(a, b)

    def seteq(self, a, b):
        """same elements (spec side)"""
        a, b = list(a), list(b)
        return and_(True, *[or_(False, *[value_eq(x, y) for y in b]) for x in a], *[or_(False, *[value_eq(x, y) for y in a]) for x in b])

    def isint(self, x):
        return SymBool(z3.IsInt(real(znum(x))))

    def opaque(self, name):
        """an arbitrary text"""
        return SymStr([Opaque(z3.String(self.e.fresh(name)))])

    def fresh_int(self, name):
        return SymNum(z3.Int(self.e.fresh(name)))

    def fresh_real(self, name):
        return SymNum(z3.Real(self.e.fresh(name)))

    def fresh_fixtext(self, name, prec):
        k = z3.Int(self.e.fresh(name))
        return SymStr([FixText(z3.ToReal(k) / z3.RealVal(10 ** prec), prec)])

    def tmpdir(self):
        return "/vc-virtual"

    def vfile(self, path, content):
        f = models.VFile(path, "w")
        f.out = [content]
        self.e.vfs[path] = f
        return path

    def json_file(self, path, obj):
        return self.vfile(path, models._dumps(obj))

    def csv_file(self, path, cols, sep=","):
        """cols: name -> sequence"""
        from . import frames
        frames.install()
        seqs = {c: v if isinstance(v, SymSeq) else SymSeq(z3.IntVal(len(v)), lambda i, v=v: v[i.as_long()]) for c, v in cols.items()}
        n = next(iter(seqs.values())).n
        self.e.vfs[path] = frames.FrameFile(frames.SymFrame(n, seqs), {"sep": sep})
        return path

    def frame(self, cols, dtypes=None):
        from . import frames
        frames.install()
        n = next(iter(cols.values())).n
        return frames.SymFrame(n, cols, dtypes)

    def lframe(self, cols, dtypes=None, index=None):
        """frame with a concrete number of rows; cells may be symbolic"""
        from . import lframe
        lframe.install()
        return lframe.LFrame.of(cols, index)

    def pframe(self, cols, index=None):
        """real pandas frame; columns with symbolic cells have dtype object"""
        from . import cells
        import pandas as pd
        cells.install()
        self.e.pandas_cells = True
        d = {c: (pd.Series(cells.arr(list(v)), index=index) if cells.symcells(list(v)) else pd.Series(list(v), index=index)) for c, v in cols.items()}
        return pd.DataFrame(d)

    def pcsv(self, path, cols, sep=",", preamble=(), index=False):
        """delimited text file whose cells may be symbolic; read back as a real pandas frame. index: leading unnamed column 0.."""
        from . import cells
        fr = self.pframe(cols)
        self.e.vfs[path] = cells.CellFile(path, fr, sep, list(preamble), index)
        return path

    def stat(self, name, *a):
        """spec side: the mathematical function (log10, skew and kurtosis uninterpreted)"""
        from . import cells as C
        if not deep_symbolic(a):
            return ConcH.stat(self, name, *a)
        if name == "log10":
            return C.uf("log10", a[0])
        if name in ("skew",):
            return C.uf(name, *a[0])
        if name == "kurtosis":
            return C.uf("kurtosis_%s_%s" % a[1:], *a[0])
        if name == "line":
            return C.line(*a)
        return {"var": C.var, "mean": C.mean, "sum": C.total, "median": C.median, "max": lambda x: C.extreme(x, True),
                "min": lambda x: C.extreme(x, False)}[name](list(a[0]))

    def cells(self, col):
        return list(col)

    def exists(self, n, f):
        if isinstance(n, SymNum):
            i = self.e.bvar("i")
            return SymBool(z3.Exists([i], z3.And(i >= 0, i < n.z, core.zbool(f(SymNum(i))))))
        return or_(False, *[f(i) for i in range(n)])

    def isnan(self, x):
        return SymBool(x.nan) if getattr(x, "nan", None) is not None else False

    def mentions(self, text, sub):
        """spec side: the literal parts of the text contain sub"""
        if isinstance(text, SymStr):
            return any(isinstance(p, str) and sub in p for p in text.p)
        return isinstance(text, str) and sub in text

    def istext(self, x):
        return isinstance(x, (str, SymStr))

    def csv_read(self, path, sep=","):
        from . import frames
        f = self.e.vfs.get(models._pathkey(path))
        if not isinstance(f, frames.FrameFile) or f.opts.get("sep", ",") != sep:
            return None
        return {c: SymSeq(s.n, s.get) for c, s in f.frame.cols.items()}

    def items(self, m, f):
        """list [f(key, value) ...] in insertion order"""
        n, _ = m.sym.order
        it = m.sym.items()
        return SymSeq(n, lambda i: f(*it.get(i)))

    def keyat(self, m, i):
        return m.sym.order[1](znum(i))

    def has(self, m, key):
        if m.sym is None:
            return or_(*[value_eq(k, key) for k in dict.keys(m)]) if dict.__len__(m) else False
        return m.sym.contains(key)

    def lookup(self, m, key, default=None):
        """spec-side m.get(key, default) without forking (int values)"""
        if m.sym is None:
            r = default
            for k in dict.keys(m):
                c = value_eq(k, key)
                r = SymNum(z3.If(core.zbool(c), znum(m._raw(k)), znum(r)))
            return r
        return SymNum(z3.If(core.zbool(m.sym.contains(key)), m.sym.raw(key).z, znum(default)))

    def arbitrary(self, name, shape):
        """an arbitrary value of the shape (skolem constant)"""
        sh = mkshape(shape)
        return build(sh, [z3.Const(self.e.fresh("%s.%d" % (name, i)), SORTS[k]()) for i, k in enumerate(leaves(sh))])

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            za, zb = znum(a), znum(b)
            if za.is_int() != zb.is_int():
                za, zb = real(za), real(zb)
            return SymNum(z3.If(c.z, za, zb))
        return a if c else b

    def vload(self, path):
        """object stored in a virtual json file, None if there is none"""
        f = self.e.vfs.get(path)
        return None if f is None else models._loads(f.content())

    def vwrite(self, path, text):
        f = models.VFile(path, "w")
        f.write(text)
        self.e.vfs[models._pathkey(path)] = f

    def vread(self, path):
        f = self.e.vfs.get(models._pathkey(path))
        return None if f is None else f.content()

    def vlist(self, d):
        """paths of the files in a directory"""
        return [p for p in self.e.vfs if isinstance(p, str) and os.path.dirname(p) == d]

    def vlines(self, path):
        """lines of a CRLF file"""
        t = self.vread(path)
        return [x for x in t.split("\r\n")][:-1] if t is not None else None

    def table(self, path, sep):
        """cells of a delimited file line by line; numbers as numbers"""
        from . import cells
        f = self.e.vfs.get(models._pathkey(path))
        return f.lines() if isinstance(f, cells.TableFile) and f.sep == sep else None

    def fmt(self, v, spec):
        return values.fmt(v, spec) if isinstance(v, Sym) else format(v, spec)


class PosMap(SymMap):
    """insertion-ordered symbolic dict: position function is the inverse of the key array"""
    def __init__(self, ks, vs, n, karr, varr, pos):
        self.kshape, self.vshape, self.n, self.karr, self.varr, self.pos = ks, vs, n, karr, varr, pos
        self.order = (n, lambda i: build(ks, [z3.Select(a, i) for a in karr]))

    def _p(self, key):
        return self.pos(*flatten(self.kshape, key))

    def in_prefix(self, key, k):
        p = self._p(key)
        kz = flatten(self.kshape, key)
        return SymBool(z3.And(p >= 0, p < znum(k), *[z3.Select(a, p) == t for a, t in zip(self.karr, kz)]))

    def contains(self, key):
        return self.in_prefix(key, SymNum(self.n))

    def raw(self, key):
        p = self._p(key)
        return build(self.vshape, [z3.Select(a, p) for a in self.varr])

    def setitem(self, key, v):
        raise core.Unsupported("store into an input map")

    def items(self):
        n, kf = self.order
        return SymSeq(n, lambda i: (kf(i), build(self.vshape, [z3.Select(a, i) for a in self.varr])))

    def values(self):
        return SymSeq(self.n, lambda i: build(self.vshape, [z3.Select(a, i) for a in self.varr]))


def mkshape(s):
    if isinstance(s, str):
        return Leaf(s)
    if isinstance(s, dict):
        return ("dict", tuple((k, mkshape(v)) for k, v in s.items()))
    if isinstance(s, tuple):
        return ("tuple", tuple(mkshape(v) for v in s))
    return s


def unflat(sh, vals):
    it = iter(vals)

    def go(s):
        if isinstance(s, Const):
            return s.v
        if isinstance(s, Leaf):
            v = next(it)
            if s.kind == "nreal":
                return float("nan") if next(it) else v
            return v
        tag, kids = s
        if tag == "dict":
            return {k: go(x) for k, x in kids}
        if tag == "tuple":
            return tuple(go(x) for x in kids)
        return [go(x) for x in kids]
    return go(sh)


# ------------------------------------------------------------------------------------ concrete
def to_py(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (list, tuple)):
        return type(v)(to_py(x) for x in v)
    if isinstance(v, dict):
        return {k: to_py(x) for k, x in v.items()}
    return v


class ConcH(BaseH):
    sym = False

    def __init__(self, rng, assign=None):
        self.rng = rng
        self.assign = assign or {}
        self.log = {}
        self.checked = 0
        self.ran = False
        self.covers = set()
        self._tmp = []

    def _get(self, name):
        return self.assign.get(name)

    def _log(self, name, v):
        self.log[name] = v
        return v

    def choice(self, name, options):
        i = self._get(name)
        if not isinstance(i, int) or i >= len(options):
            i = self.rng.randrange(len(options))
        self.log[name] = i
        return options[i]

    def int(self, name, lo=None, hi=None, pool=None, gen=None):
        v = self._get(name)
        if v is None:
            if pool and self.rng.random() < 0.5:
                v = self.rng.choice(pool)
            else:
                lo, hi = gen or (lo, hi)
                a, b = (lo if lo is not None else -20), (hi if hi is not None else (lo + 40 if lo is not None else 20))
                r = self.rng.random()
                if b - a > 30 and r < 0.6:
                    v = self.rng.choice([a, a + 1, a + 2, self.rng.randint(a, min(b, a + 12)), self.rng.randint(a, b), b])
                else:
                    v = self.rng.randint(a, b)
        return self._log(name, int(v))

    def real(self, name, lo=None, hi=None, nan=False, decimals=None, pool=None):
        v = self._get(name)
        if nan:
            isnan = self._get(name + "?nan")
            if isnan is None and v is None:
                isnan = self.rng.random() < 0.15
            if isnan:
                self.log[name + "?nan"] = True
                self.log[name] = 0.0
                return float("nan")
            self.log[name + "?nan"] = False
        if v is None:
            v = self._rand_real(lo, hi, decimals, pool)
        v = float(v)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return self._log(name, v)

    def _rand_real(self, lo, hi, decimals, pool):
        r = self.rng.random()
        if pool and r < 0.5:
            return self.rng.choice(pool)
        a, b = (-10.0 if lo is None else float(lo)), (10.0 if hi is None else float(hi))
        if hi is None and lo is not None:
            b = a + 10
        d = decimals if decimals is not None else self.rng.choice([0, 1, 2, 3, 4, 6])
        if r < 0.65:
            v = self.rng.choice([a, b, (a + b) / 2, 0.0, 1.0, 0.5])
            v = min(max(v, a), b)
        elif b > 100 * max(1.0, abs(a)) and a >= 0 and r < 0.85:
            v = math.exp(self.rng.uniform(math.log(max(a, 1e-9)), math.log(b)))
        else:
            v = self.rng.uniform(a, b)
        v = round(v, d)
        return min(max(v, a), b)

    def bool(self, name):
        v = self._get(name)
        if v is None:
            v = self.rng.random() < 0.5
        return self._log(name, bool(v))

    def text(self, name, pool=None, notin=()):
        v = self._get(name)
        if not isinstance(v, str):
            v = self.rng.choice(pool or ["alpha", "Beta", "gamma x", "", "rpt_a", "HPPC1", "zz"])
        if v in notin:
            v = v + "_x"
        return self._log(name, v)

    def word(self, name, maxlen, banned="", pool=None):
        v = self._get(name)
        bad = set(banned) | set("\r\n")
        if not isinstance(v, str) or not v or len(v) > maxlen or set(v) & bad or v != v.strip():
            n = self.rng.choice([1, 2, 5, maxlen - 1, maxlen]) or 1
            if pool and self.rng.random() < 0.5:
                v = self.rng.choice(pool)
            else:
                alpha = [c for c in "aZ0.9-_ <>=/:;[](),\u00b5|\t'\"&%#" if c not in bad]
                v = "".join(self.rng.choice(alpha) for _ in range(n)).strip() or "w"
            v = "".join(c for c in v if c not in bad)[:maxlen].strip() or "w"
        return self._log(name, v)

    def numtext(self, name, lo=None, hi=None, decimals=None, pool=None, scinot=False):
        v = self._get(name)
        if v is not None and not isinstance(v, str):
            s = dec(v)
        elif isinstance(v, str):
            s = v
        else:
            d = decimals if decimals is not None else self.rng.choice([0, 1, 2, 3, 4, 6, 9])
            x = Fraction(self._rand_real(lo, hi, d, pool)).limit_denominator(10 ** d)
            s = dec(x)
            r = self.rng.random()
            if r < 0.2 and "." not in s:
                s += self.rng.choice([".0", ".000", "."])
            elif r < 0.3 and "." in s:
                s += "0"
            elif r < 0.4 and s.startswith("0."):
                s = s[1:]
            elif scinot and r < 0.6:
                k = self.rng.choice([-3, -2, -1, 1, 2])
                s = dec(x / Fraction(10) ** k) + self.rng.choice(["e", "E"]) + str(k)
        return self._log(name, s)

    def inttext(self, name, lo=None, hi=None, width=0):
        v = self.int(name, lo, hi)
        return str(v).zfill(width) if width else str(v)

    def fixtext(self, name, prec, lo=None, hi=None):
        v = self.real(name, lo, hi, decimals=prec)
        return "{:.{p}f}".format(v, p=prec)

    def _leaf(self, kind, lo, hi, pool):
        if kind == "int":
            return self.rng.choice(pool) if pool else self.rng.randint(lo if lo is not None else -3, hi if hi is not None else 5)
        if kind == "real":
            return self._rand_real(lo if lo is not None else -5, hi if hi is not None else 5, self.rng.choice([0, 1, 2]), pool)
        if kind == "nreal":
            return float("nan") if self.rng.random() < 0.15 else self._leaf("real", lo, hi, pool)
        if kind == "bool":
            return self.rng.random() < 0.5
        return self.rng.choice(["a", "b", "c", "dd", ""])

    def _shape(self, s, lo, hi, pool):
        if isinstance(s, str):
            return self._leaf(s, lo, hi, pool)
        if isinstance(s, dict):
            return {k: self._shape(v, lo, hi, pool) for k, v in s.items()}
        return tuple(self._shape(v, lo, hi, pool) for v in s)

    def seq(self, name, shape, lo=None, hi=None, minlen=0, maxlen=None, concmax=8, pool=None, gen=None):
        v = self._get(name)
        if v is None:
            lo, hi = gen or (lo, hi)
            m = self.rng.randint(minlen, max(minlen, min(concmax, maxlen) if maxlen is not None else concmax))
            v = [self._shape(shape, lo, hi, pool) for _ in range(m)]
        v = to_py(v)
        self.log[name] = list(v)
        return list(v)

    def mapping(self, name, kshape, vshape, minlen=0, concmax=5, kgen=(None, None), vgen=(None, None)):
        v = self._get(name)
        if v is None:
            m = self.rng.randint(minlen, concmax)
            d = {}
            for _ in range(m):
                d[self._shape(kshape, *kgen, None)] = self._shape(vshape, *vgen, None)
        else:
            d = {(tuple(k) if isinstance(k, list) else k): to_py(x) for k, x in v}
        self.log[name] = [[k, x] for k, x in d.items()]
        return dict(d)

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, label, c, info=None):
        self.checked += 1
        if not c:
            raise Violation(label, info)

    def cover(self, label):
        self.covers.add(label)

    def run(self, fn, *a, **k):
        self.ran = True
        try:
            return Result(True, fn(*a, **k))
        except Exception as x:
            return Result(False, exc=x)
        except BaseException as x:
            if type(x).__module__.startswith("beep."):
                return Result(False, exc=x)
            raise

    def case(self, c):
        return bool(c)

    def forall(self, n, f):
        return all(bool(f(i)) for i in range(n))

    def skolem(self, name, n):
        if n <= 0:
            raise Skip()
        return self.rng.randrange(n)

    def ensure_all(self, label, n, f, info=None):
        for i in range(n):
            self.ensure(label, f(i), info)

    def len(self, x):
        return len(x)

    def at(self, x, i):
        return x[i]

    def ghost(self, *a, **k):
        pass

    def ghost_map(self, *a, **k):
        pass

    def recfun(self, name, base, step):
        memo = {0: base}

        def fn(i):
            for j in range(len(memo), i + 1):
                memo[j] = step(j, memo[j - 1])
            return memo[i]
        fn.unfold = lambda i: None
        return fn

    def num(self, x):
        if isinstance(x, str):
            try:
                return Fraction(x.strip())
            except ValueError:
                return Fraction(float(x))
        if isinstance(x, bool):
            return Fraction(int(x))
        return Fraction(x) if isinstance(x, (int, Fraction)) else Fraction(repr(float(x)))

    def close(self, a, b, tol):
        a, b, tol = Fraction(a), Fraction(b), Fraction(tol)
        return abs(a - b) <= tol + (abs(a) + abs(b)) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 15)

    def eq(self, a, b):
        return a == b

    def seteq(self, a, b):
        return set(a) == set(b)

    def isint(self, x):
        return Fraction(x).denominator == 1

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="verif-")
        self._tmp.append(d)
        return d

    def vfile(self, path, content):
        with open(path, "w") as f:
            f.write(content)
        return path

    def json_file(self, path, obj):
        import json
        with open(path, "w") as f:
            json.dump(obj, f)
        return path

    def csv_file(self, path, cols, sep=","):
        import pandas as pd
        pd.DataFrame(cols).to_csv(path, sep=sep, index=False)
        return path

    def frame(self, cols, dtypes=None):
        import pandas as pd
        return pd.DataFrame({c: pd.Series(v, dtype=(dtypes or {}).get(c)) for c, v in cols.items()})

    def lframe(self, cols, dtypes=None, index=None):
        import pandas as pd
        return pd.DataFrame({c: pd.Series(list(v), dtype=(dtypes or {}).get(c)) for c, v in cols.items()}).set_axis(
            list(range(len(next(iter(cols.values()))))) if index is None else index, axis=0)

    def pcsv(self, path, cols, sep=",", preamble=(), index=False):
        def txt(v):
            return "" if v is None or v != v else repr(v) if isinstance(v, float) else str(v)
        names = list(cols)
        with open(path, "w") as f:
            for ln in preamble:
                f.write(ln + "\n")
            f.write(sep.join(([""] if index else []) + names) + "\n")
            for i in range(len(cols[names[0]])):
                f.write(sep.join(([str(i)] if index else []) + [txt(cols[c][i]) for c in names]) + "\n")
        return path

    def pframe(self, cols, index=None):
        import pandas as pd
        return pd.DataFrame({c: pd.Series(list(v), index=index) for c, v in cols.items()})

    def stat(self, name, *a):
        import numpy as np
        from scipy import stats
        with np.errstate(all="ignore"):
            if name == "log10":
                return float(np.log10(a[0]))
            if name == "kurtosis":
                return float(stats.kurtosis(np.asarray(a[0], float), fisher=a[1], bias=a[2]))
            if name == "line":
                return tuple(np.polyfit(np.asarray(a[0], float), np.asarray(a[1], float), 1))
            return float({"var": np.var, "mean": np.mean, "sum": np.sum, "median": np.median, "max": np.max, "min": np.min, "skew": stats.skew}[name](
                np.asarray(a[0], float)))

    def cells(self, col):
        return list(col)

    def exists(self, n, f):
        return any(bool(f(i)) for i in range(n))

    def isnan(self, x):
        return isinstance(x, float) and math.isnan(x)

    def mentions(self, text, sub):
        return isinstance(text, str) and sub in text

    def istext(self, x):
        return isinstance(x, str)

    def csv_read(self, path, sep=","):
        import pandas as pd
        if not os.path.exists(path):
            return None
        df = pd.read_csv(path, sep=sep)
        return {c: df[c].tolist() for c in df.columns}

    def items(self, m, f):
        return [f(k, v) for k, v in m.items()]

    def keyat(self, m, i):
        return list(m)[i]

    def has(self, m, key):
        return key in m

    def lookup(self, m, key, default=None):
        return m.get(key, default)

    def arbitrary(self, name, shape):
        return self._shape(shape, None, None, None)

    def ite(self, c, a, b):
        return a if c else b

    def vread(self, path):
        if not os.path.exists(path):
            return None
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def vlist(self, d):
        return [os.path.join(d, f) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []

    def vlines(self, path):
        t = self.vread(path)
        return t.split("\r\n")[:-1] if t is not None else None

    def table(self, path, sep):
        def cell(x):
            try:
                return float(x)
            except ValueError:
                return x
        if not os.path.exists(path):
            return None
        with open(path) as f:
            return [[cell(x) for x in ln.split(sep)] for ln in f.read().splitlines()]

    def fmt(self, v, spec):
        return format(v, spec)

    def cleanup(self):
        for d in self._tmp:
            if d.startswith(tempfile.gettempdir()):
                shutil.rmtree(d, ignore_errors=True)
