"""A small symbolic stand-in for the pandas surface used by code under contract: a frame is a set of equally long
symbolic columns. Assumed contract of pandas: column access, positional row access, row iteration, column assignment and
read_csv/to_csv keep values, order and row count."""
import z3
from . import core, models
from .core import ex, Unsupported
from .values import *


class BoolSeries(Sym):
    """element-wise condition over a frame's rows"""
    __vc_symbolic__ = True

    def __init__(self, n, p):
        self.n, self.p = n, p          # p: z3 Int -> z3 Bool

    def __and__(self, o):
        return BoolSeries(self.n, lambda i: z3.And(self.p(i), o.p(i)))

    def __or__(self, o):
        return BoolSeries(self.n, lambda i: z3.Or(self.p(i), o.p(i)))

    def __invert__(self):
        return BoolSeries(self.n, lambda i: z3.Not(self.p(i)))

    def exists(self):
        j = ex().bvar("jx")
        return z3.Exists([j], z3.And(j >= 0, j < self.n, self.p(j)))

    def any(self, *a, **k):
        return SymBool(self.exists())

    def all(self, *a, **k):
        return SymBool(z3.Not((~self).exists()))

    @property
    def values(self):
        return self

    def to_numpy(self):
        return self

    def sum(self):
        return self.select().size

    def select(self):
        e = ex()
        c = z3.Int(e.fresh("count"))
        w = z3.Int(e.fresh("first"))
        j = e.bvar("jx")
        hit = z3.And(w >= 0, w < self.n, self.p(w), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(self.p(j)))))
        e.assume(z3.Or(z3.And(c >= 1, c <= self.n, hit),
                       z3.And(c == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Not(self.p(j)))))))
        return Sel(self, c, w)

    def sym_len(self):
        return models._simpl(self.n)


class Sel(Sym):
    """positions at which a condition holds: its size and its first element are known"""
    __vc_symbolic__ = True

    def __init__(self, cond, c, w):
        self.cond, self.c, self.w = cond, c, w

    @property
    def size(self):
        return SymNum(self.c)

    @property
    def shape(self):
        return (SymNum(self.c),)

    def sym_len(self):
        return SymNum(self.c)

    def __bool__(self):
        raise Unsupported("truth value of a selection")

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            if not ex().branch(self.c > 0):
                raise IndexError("index 0 is out of bounds")
            return SymNum(self.w)
        raise Unsupported("selection element other than the first")


def round_term(x, nd=0):
    """round half to even, as a term"""
    if x.isint and nd >= 0:
        return x
    sc = z3.RealVal(10) ** 0 if False else z3.RealVal(str(10 ** nd)) if nd >= 0 else 1 / z3.RealVal(str(10 ** -nd))
    y = real(x.z) * sc + z3.RealVal("1/2")
    r = z3.ToInt(y)
    k = z3.If(z3.And(z3.ToReal(r) == y, r % 2 == 1), r - 1, r)
    return SymNum(z3.ToReal(k) / sc, x.nan)


class SubSeries(Sym):
    """series[cond]: only its emptiness, length and first element are known"""
    __vc_symbolic__ = True

    def __init__(self, s, sel):
        self.s, self.sel = s, sel

    def sym_len(self):
        return SymNum(self.sel.c)

    @property
    def empty(self):
        return SymBool(self.sel.c == 0)

    @property
    def size(self):
        return SymNum(self.sel.c)

    @property
    def iloc(self):
        return self

    def __getitem__(self, i):
        return self.s.get(self.sel[i].z)


def _elt(f, ne=None):
    def m(self, o):
        src = getattr(o, "rounded_of", None)
        if ne is not None and src is not None:
            j = ex().bvar("jr")
            if self.get(j).z.eq(src.get(j).z):       # x == round(x)  iff  x is an integer
                def p(i):
                    isint = z3.And(self._nn(i), z3.IsInt(real(self.get(i).z)))
                    return z3.Not(isint) if ne else isint
                return BoolSeries(self.n, p)
        if isinstance(o, SymSeq):
            return BoolSeries(self.n, lambda i: core.zbool(f(self.get(i), o.get(i))))
        return BoolSeries(self.n, lambda i: core.zbool(f(self.get(i), o)))
    return m


def _ar(f):
    def m(self, o):
        if isinstance(o, SymSeq):
            return self._like(lambda i: f(self.get(i), o.get(i)))
        return self._like(lambda i: f(self.get(i), o))
    return m


class SymSeries(SymSeq):
    dtype = None
    __array_ufunc__ = None
    __gt__ = _elt(lambda a, b: a > b)
    __lt__ = _elt(lambda a, b: a < b)
    __ge__ = _elt(lambda a, b: a >= b)
    __le__ = _elt(lambda a, b: a <= b)
    __eq__ = _elt(lambda a, b: a == b, False)
    __ne__ = _elt(lambda a, b: a != b, True)
    gt, lt, ge, le, eq, ne = __gt__, __lt__, __ge__, __le__, __eq__, __ne__
    __hash__ = None
    __add__ = _ar(lambda a, b: a + b)
    __sub__ = _ar(lambda a, b: a - b)
    __mul__ = _ar(lambda a, b: a * b)
    __truediv__ = _ar(lambda a, b: a / b)

    def _like(self, get):
        r = SymSeries(self.n, get)
        r.dtype = self.dtype
        return r

    def __getitem__(self, i):
        if isinstance(i, BoolSeries):
            return SubSeries(self, i.select())
        return self.at(i)

    def _nn(self, i):
        """element i is a number"""
        v = self.get(i)
        return z3.BoolVal(True) if v.nan is None else z3.Not(v.nan)

    def _extreme(self, up):
        e = ex()
        some = BoolSeries(self.n, self._nn).exists()
        w, j = z3.Int(e.fresh("arg")), e.bvar("jm")
        m = z3.Real(e.fresh("ext"))
        v, o = self.get(w), self.get(j)
        bound = real(o.z) <= m if up else real(o.z) >= m
        e.assume(z3.Implies(some, z3.And(w >= 0, w < self.n, self._nn(w), real(v.z) == m,
                                         z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n, self._nn(j)), bound)))))
        return SymNum(m, z3.Not(some))

    def max(self, *a, **k):
        return self._extreme(True)

    def min(self, *a, **k):
        return self._extreme(False)

    def isna(self):
        return BoolSeries(self.n, lambda i: z3.Not(self._nn(i)))

    isnull = isna

    def notna(self):
        return BoolSeries(self.n, self._nn)

    def round(self, nd=0):
        r = self._like(lambda i: round_term(self.get(i), nd or 0))
        if not nd:
            r.rounded_of = self
        return r

    def diff(self, periods=1):
        def get(i):
            d = self.get(i) - self.get(i - 1)
            first = i < 1
            return SymNum(real(d.z), first if d.nan is None else z3.Or(first, d.nan))
        return self._like(get)

    def dropna(self):
        return DropNA(self)

    def any(self):
        raise Unsupported("any of a numeric series")

    @property
    def is_monotonic_increasing(self):
        j, k = ex().bvar("jx"), None
        a, b = self.get(j), self.get(j + 1)
        return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < self.n), z3.And(self._nn(j), self._nn(j + 1), real(a.z) <= real(b.z)))))

    def astype(self, t, *a, **k):
        f = {int: parse_int, "int": parse_int, float: parse_float, "float": parse_float}.get(t)
        if f is None:
            raise Unsupported("astype %r" % (t,))
        return SymSeries(self.n, lambda i: f(self.get(i)))

    def tolist(self):
        return SymSeq(self.n, self.get)

    to_list = tolist

    def to_numpy(self):
        return self

    @property
    def values(self):
        return self

    @property
    def iloc(self):
        return SymSeq(self.n, self.get)

    def copy(self):
        return self

    def items(self):
        return SymSeq(self.n, lambda i: (SymNum(i), self.get(i)))

    iteritems = items


class DropNA(Sym):
    """series without its NaN rows: only conditions on its elements are available"""
    __vc_symbolic__ = True

    def __init__(self, s):
        self.s = s

    def _c(self, b):
        return BoolSeries(b.n, lambda i: z3.And(self.s._nn(i), b.p(i)))

    def __lt__(self, o):
        return self._c(self.s < o)

    def __gt__(self, o):
        return self._c(self.s > o)

    def __le__(self, o):
        return self._c(self.s <= o)

    def __ge__(self, o):
        return self._c(self.s >= o)

    def __getitem__(self, m):
        if isinstance(m, BoolSeries):
            return SubSeries(self.s, self._c(m).select())
        raise Unsupported("element of a NaN-free series")

    def max(self):
        return self.s.max()

    def min(self):
        return self.s.min()


class Row(Sym):
    __vc_symbolic__ = True

    def __init__(self, frame, i):
        self.frame, self.i = frame, i

    def __getitem__(self, c):
        if c not in self.frame.cols:
            raise KeyError(c)
        return self.frame.cols[c].get(self.i)

    def get(self, c, d=None):
        return self[c] if c in self.frame.cols else d

    def __getattr__(self, c):
        if c.startswith("_") or c not in self.frame.cols:
            raise AttributeError(c)
        return self[c]


class _ILoc(Sym):
    __vc_symbolic__ = True

    def __init__(self, fr):
        self.fr = fr

    def __getitem__(self, i):
        return SymSeq(self.fr.n, lambda j: Row(self.fr, j)).at(i)


class SymFrame(Sym):
    __vc_symbolic__ = True

    def __init__(self, n, cols, dtypes=None):
        self.n, self.cols = n, dict(cols)
        self.dtypes = dict(dtypes or {})

    def rename(self, *a, **k):
        f = k.get("columns") if "columns" in k else a[0] if a else None
        if "columns" not in k and k.get("axis") not in ("columns", 1) or k.get("inplace"):
            raise Unsupported("rename form")
        g = (lambda c: f.get(c, c)) if isinstance(f, dict) else (lambda c: models.call(f, c))
        return SymFrame(self.n, {g(c): v for c, v in self.cols.items()}, {g(c): v for c, v in self.dtypes.items()})

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def columns(self):
        return models.mklist(list(self.cols))

    def sym_len(self):
        return models._simpl(self.n)

    def contains(self, c):
        return c in self.cols

    def __getitem__(self, c):
        if isinstance(c, str):
            if c not in self.cols:
                raise KeyError(c)
            s = self.cols[c]
            r = SymSeries(s.n, s.get)
            r.dtype = self.dtypes.get(c)
            return r
        raise Unsupported("frame indexing")

    def __setitem__(self, c, v):
        if ex().loop_stack:
            raise Unsupported("column store inside a symbolic loop")
        if isinstance(v, VList) and v.sym is not None:
            v = v.as_seq()
        if isinstance(v, VList):
            l = list(v)
            if not ex().entails(self.n == len(l)):
                raise Unsupported("column of unrelated length")
            self.cols[c] = SymSeq(z3.IntVal(len(l)), lambda i, l=l: models._pick(l, SymNum(i)) if not z3.is_int_value(z3.simplify(i)) else l[z3.simplify(i).as_long()])
            return
        if isinstance(v, SymSeq):
            if not ex().entails(self.n == v.n):
                raise ValueError("Length of values does not match length of index")
            self.cols[c] = v
            return
        raise Unsupported("column store of %s" % type(v).__name__)

    def iterrows(self):
        return SymSeq(self.n, lambda i: (SymNum(i), Row(self, i)))

    def itertuples(self, **k):
        raise Unsupported("itertuples")

    def copy(self, **k):
        return SymFrame(self.n, self.cols, self.dtypes)

    def to_csv(self, path, **k):
        ex().vfs[models._pathkey(path)] = FrameFile(self.copy(), k)


class FrameFile:
    def __init__(self, frame, opts):
        self.frame, self.opts = frame, opts


INSTALLED = []


def install():
    if INSTALLED:
        return
    INSTALLED.append(1)
    import numpy as np
    import pandas as pd

    def sub(f):
        """model with fall-through to the library for concrete arguments"""
        def deco(g):
            def m(*a, **k):
                if deep_symbolic(a) or any(isinstance(x, (Sym,)) for x in a):
                    return g(*a, **k)
                return f(*a, **k)
            models.MODELS[id(f)] = m
            models._KEEP.append(f)
            return g
        return deco

    @sub(np.where)
    def _where(c, *a):
        if isinstance(c, SymBool) and not a:
            return (Sel(BoolSeries(z3.IntVal(1), lambda i: c.z), *_one(c)),)
        if isinstance(c, BoolSeries) and not a:
            return (c.select(),)
        if isinstance(c, BoolSeries) and len(a) == 2:
            def val(x, i):
                return x.get(i) if isinstance(x, SymSeq) else x

            def get(i):
                x, y = val(a[0], i), val(a[1], i)
                nx, ny = getattr(x, "nan", None), getattr(y, "nan", None)
                nn = None
                if nx is not None or ny is not None:
                    nn = z3.If(c.p(i), z3.BoolVal(False) if nx is None else nx, z3.BoolVal(False) if ny is None else ny)
                return SymNum(z3.If(c.p(i), real(znum(x)), real(znum(y))), nn)
            return SymSeries(c.n, get)
        raise Unsupported("np.where form")

    def _one(c):
        k = z3.Int(ex().fresh("count"))
        ex().assume(k == z3.If(c.z, 1, 0))
        return k, z3.IntVal(0)

    for f in (np.round, np.around, getattr(np, "round_", np.round)):
        @sub(f)
        def _npround(x, decimals=0):
            if isinstance(x, SymSeries):
                return x.round(decimals)
            return sym_round(x, decimals)

    @sub(np.arange)
    def _arange(*a):
        r = models._t_range(*a)
        return SymSeries(r.n, r.get) if isinstance(r, SymSeq) else np.arange(*a)

    for f in (np.any, np.all):
        @sub(f)
        def _npany(x, f=f):
            if isinstance(x, BoolSeries):
                return x.any() if f is np.any else x.all()
            if isinstance(x, SymBool):
                return x
            raise Unsupported("np.any/all form")
    for f in (np.isnan, pd.isnull, pd.isna):
        @sub(f)
        def _isnan(x):
            if isinstance(x, SymNum):
                return SymBool(x.nan) if x.nan is not None else False
            if isinstance(x, SymSeries):
                return x.isna()
            raise Unsupported("isnan form")
    for f, up in ((np.max, True), (np.min, False), (np.nanmax, True), (np.nanmin, False)):
        @sub(f)
        def _npext(x, up=up, f=f):
            if isinstance(x, SymSeries):
                return x._extreme(up)
            raise Unsupported("np.max/min form")

    @sub(pd.concat)
    def _concat(objs, axis=0, ignore_index=False, sort=False, **k):
        fs = list(objs)
        if k or axis not in (0, "index", "rows") or not fs or not all(isinstance(f, SymFrame) for f in fs) or any(set(f.cols) != set(fs[0].cols) for f in fs):
            raise Unsupported("concat form")

        def glue(a, b, n):
            def get(i):
                x, y = a.get(i), b.get(i - n)
                if x.isint and y.isint and x.nan is None and y.nan is None:
                    return SymNum(z3.If(i < n, x.z, y.z))
                nn = None if x.nan is None and y.nan is None else z3.If(i < n, *[z3.BoolVal(False) if v.nan is None else v.nan for v in (x, y)])
                return SymNum(z3.If(i < n, real(x.z), real(y.z)), nn)
            return SymSeries(n + b.n, get)
        n, cols = fs[0].n, dict(fs[0].cols)
        for f in fs[1:]:
            cols = {c: glue(cols[c], f.cols[c], n) for c in cols}
            n = n + f.n
        return SymFrame(n, cols, fs[0].dtypes)

    @models.model(pd.read_csv)
    def _read_csv(path, *a, **k):
        f = ex().vfs.get(models._pathkey(path)) if isinstance(path, (str, SymStr)) else None
        if isinstance(f, FrameFile):
            if k.get("sep", k.get("delimiter", ",")) != f.opts.get("sep", ",") or a:
                raise Unsupported("read_csv options")
            return f.frame.copy()
        return pd.read_csv(path, *a, **k)
