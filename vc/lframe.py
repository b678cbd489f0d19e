"""data frames with a concrete number of rows and symbolic cells (pandas element-wise semantics, NaN included).

Row filters case-split on the condition of every row, so the surviving rows are concrete on each path."""
import z3
from . import models
from .core import ex, Unsupported
from .values import *
from .values import Sym


def cell(x):
    if isinstance(x, (SymNum, SymBool)):
        return x
    if isinstance(x, bool):
        return SymBool(z3.BoolVal(x))
    if isinstance(x, float) and x != x:
        return NAN
    return SymNum(znum(x))


NAN = SymNum(z3.RealVal(0), z3.BoolVal(True))


def isnan(x):
    return z3.BoolVal(False) if getattr(x, "nan", None) is None else x.nan


def rz(x):
    return real(znum(x))


def mk(z, nan):
    nan = z3.simplify(nan)
    return SymNum(z, None if z3.is_false(nan) else nan)


def fdiv(a, b):
    """IEEE division with finite results: 0/0 is NaN; x/0 (infinite) is a value above every bound"""
    a, b = cell(a), cell(b)
    zero = rz(b) == 0
    big = z3.Real(ex().fresh("inf"))
    ex().assume(big > z3.RealVal(10 ** 30))
    q = z3.If(zero, z3.If(rz(a) > 0, big, -big), rz(a) / z3.If(zero, z3.RealVal(1), rz(b)))
    return mk(q, z3.Or(isnan(a), isnan(b), z3.And(zero, rz(a) == 0)))


def arith(op, a, b):
    a, b = cell(a), cell(b)
    if op == "/":
        return fdiv(a, b)
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op]
    return mk(f(rz(a), rz(b)), z3.Or(isnan(a), isnan(b)))


def comp(op, a, b):
    a, b = cell(a), cell(b)
    f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
         "==": lambda x, y: x == y, "!=": lambda x, y: x != y}[op]
    ok = z3.And(z3.Not(isnan(a)), z3.Not(isnan(b)))
    r = z3.And(ok, f(rz(a), rz(b)))
    if op == "!=":
        r = z3.Or(z3.Not(ok), rz(a) != rz(b))
    return SymBool(z3.simplify(r))


def extreme(cs, up):
    best, bn = z3.RealVal(0), z3.BoolVal(True)
    for c in cs:
        take = z3.And(z3.Not(isnan(c)), z3.Or(bn, rz(c) > best if up else rz(c) < best))
        best = z3.If(take, rz(c), best)
        bn = z3.And(bn, isnan(c))
    return mk(best, bn)


def mean(cs):
    tot = z3.Sum([z3.If(isnan(c), z3.RealVal(0), rz(c)) for c in cs] or [z3.RealVal(0)])
    cnt = z3.Sum([z3.If(isnan(c), 0, 1) for c in cs] or [z3.IntVal(0)])
    z = z3.RealVal(0)
    for k in range(1, len(cs) + 1):
        z = z3.If(cnt == k, tot / k, z)
    return mk(z, cnt == 0)


def median(cs):
    n = len(cs)
    ss = list(map(rz, cs))
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = ss[j], ss[j + 1]
            ss[j], ss[j + 1] = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
    return SymNum(ss[n // 2] if n % 2 else (ss[n // 2 - 1] + ss[n // 2]) / 2)


class _Acc(Sym):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i)


class LCol(Sym):
    __vc_symbolic__ = True

    def __init__(self, cells, idx=None, name=None):
        self.c, self.idx, self.name = [cell(x) for x in cells], list(range(len(cells))) if idx is None else list(idx), name

    def like(self, cs):
        return LCol(cs, self.idx, self.name)

    def sym_len(self):
        return len(self.c)

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter(self.c)

    @property
    def empty(self):
        return not self.c

    @property
    def size(self):
        return len(self.c)

    @property
    def shape(self):
        return (len(self.c),)

    @property
    def values(self):
        return self

    def to_numpy(self, *a):
        return self

    def tolist(self):
        return list(self.c)

    def _pos(self, i):
        if isinstance(i, slice):
            return LCol(self.c[i], self.idx[i], self.name)
        if isinstance(i, LCol):
            return self[i]
        return self.c[int(i)]

    @property
    def iat(self):
        return _Acc(self._pos)

    @property
    def iloc(self):
        return _Acc(self._pos)

    @property
    def loc(self):
        return _Acc(self.__getitem__)

    def __getitem__(self, i):
        if isinstance(i, LCol):
            keep = [k for k in range(len(self.c)) if bool(i.c[k])]
            return LCol([self.c[k] for k in keep], [self.idx[k] for k in keep], self.name)
        if isinstance(i, slice):
            return self._pos(i)
        return self.c[int(i)]

    def _bin(self, op, o, f, swap=False):
        if isinstance(o, LCol):
            if len(o.c) != len(self.c):
                raise Unsupported("series of different length")
            ps = list(zip(self.c, o.c))
        elif isinstance(o, (LFrame, LRow)):
            return NotImplemented
        else:
            ps = [(x, o) for x in self.c]
        return self.like([f(op, b, a) if swap else f(op, a, b) for a, b in ps])

    def diff(self, periods=1):
        if periods != 1:
            raise Unsupported("diff periods")
        return self.like(([NAN] if self.c else []) + [arith("-", self.c[i], self.c[i - 1]) for i in range(1, len(self.c))])

    def max(self, *a, **k):
        return extreme(self.c, True)

    def min(self, *a, **k):
        return extreme(self.c, False)

    def mean(self, *a, **k):
        return mean(self.c)

    def median(self):
        return median(self.c)

    def sum(self):
        if self.c and isinstance(self.c[0], SymBool):
            return SymNum(z3.Sum([z3.If(x.z, 1, 0) for x in self.c]))
        return SymNum(z3.Sum([z3.If(isnan(x), z3.RealVal(0), rz(x)) for x in self.c] or [z3.RealVal(0)]))

    def abs(self):
        return self.like([SymNum(z3.If(rz(x) < 0, -rz(x), rz(x)), x.nan) for x in self.c])

    def isna(self):
        return self.like([SymBool(isnan(x)) for x in self.c])

    def notna(self):
        return self.like([SymBool(z3.Not(isnan(x))) for x in self.c])

    isnull, notnull = isna, notna

    def dropna(self):
        return self[self.notna()]

    def any(self):
        return or_(*self.c) if self.c else False

    def all(self):
        return and_(*self.c) if self.c else True

    def __and__(self, o):
        return self.like([and_(a, b) for a, b in zip(self.c, o.c if isinstance(o, LCol) else [o] * len(self.c))])

    def __or__(self, o):
        return self.like([or_(a, b) for a, b in zip(self.c, o.c if isinstance(o, LCol) else [o] * len(self.c))])

    def __invert__(self):
        return self.like([not_(a) for a in self.c])

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous")

    def __neg__(self):
        return self.like([arith("-", 0, x) for x in self.c])

    __hash__ = None

    def __getattr__(self, a):
        raise Unsupported("series attribute %s" % a)


def _install_ops(cls):
    for op, names in (("+", ("__add__", "__radd__")), ("-", ("__sub__", "__rsub__")), ("*", ("__mul__", "__rmul__")), ("/", ("__truediv__", "__rtruediv__"))):
        setattr(cls, names[0], lambda self, o, op=op: self._bin(op, o, arith))
        setattr(cls, names[1], lambda self, o, op=op: self._bin(op, o, arith, True))
    for op, n in (("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__"), ("==", "__eq__"), ("!=", "__ne__")):
        setattr(cls, n, lambda self, o, op=op: self._bin(op, o, comp))
    cls.__hash__ = None


class LRow(Sym):
    """a series indexed by column names"""
    __vc_symbolic__ = True

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k] if not isinstance(k, int) else list(self.d.values())[k]

    def _bin(self, op, o, f, swap=False):
        g = (lambda k: o.d[k]) if isinstance(o, LRow) else (lambda k: o)
        return LRow({k: f(op, g(k), v) if swap else f(op, v, g(k)) for k, v in self.d.items()})

    def __getattr__(self, a):
        if a in self.__dict__.get("d", {}):
            return self.d[a]
        raise Unsupported("row attribute %s" % a)


class LFrame(Sym):
    __vc_symbolic__ = True

    def __init__(self, cols, idx=None):
        self.__dict__["cols"] = dict(cols)
        n = len(next(iter(self.cols.values())).c) if self.cols else 0
        self.__dict__["idx"] = list(range(n)) if idx is None else list(idx)

    @staticmethod
    def of(cols, index=None):
        return LFrame({k: LCol(v, index, name=k) for k, v in cols.items()}, index)

    @property
    def empty(self):
        return not self.idx or not self.cols

    @property
    def columns(self):
        return list(self.cols)

    @property
    def index(self):
        return list(self.idx)

    @property
    def shape(self):
        return (len(self.idx), len(self.cols))

    @property
    def size(self):
        return len(self.idx) * len(self.cols)

    def sym_len(self):
        return len(self.idx)

    def __len__(self):
        return len(self.idx)

    def contains(self, k):
        return k in self.cols

    __contains__ = contains

    def rows(self, keep):
        return LFrame({k: LCol([c.c[i] for i in keep], [self.idx[i] for i in keep], k) for k, c in self.cols.items()}, [self.idx[i] for i in keep])

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        if isinstance(k, list):
            return LFrame({c: self.cols[c] for c in k}, self.idx)
        if isinstance(k, LCol):
            return self.rows([i for i in range(len(self.idx)) if bool(k.c[i])])
        if isinstance(k, LFrame):
            return LFrame({c: col.like([mk(rz(x), z3.Or(isnan(x), z3.Not(b.z))) for x, b in zip(col.c, k.cols[c].c)])
                           for c, col in self.cols.items()}, self.idx)
        raise Unsupported("frame[%s]" % type(k).__name__)

    @property
    def loc(self):
        def f(k):
            if isinstance(k, tuple):
                r, c = k
                fr = self if isinstance(r, slice) and r == slice(None) else self[r]
                return fr[c]
            return self[k]
        return _Acc(f)

    @property
    def iloc(self):
        def f(k):
            if isinstance(k, slice):
                return self.rows(list(range(len(self.idx)))[k])
            if isinstance(k, int):
                return LRow({c: v.c[k] for c, v in self.cols.items()})
            raise Unsupported("iloc form")
        return _Acc(f)

    def _bin(self, op, o, f, swap=False):
        if isinstance(o, LRow):
            return LFrame({k: c._bin(op, o.d[k], f, swap) for k, c in self.cols.items()}, self.idx)
        if isinstance(o, LFrame):
            return LFrame({k: c._bin(op, o.cols[k], f, swap) for k, c in self.cols.items()}, self.idx)
        return LFrame({k: c._bin(op, o, f, swap) for k, c in self.cols.items()}, self.idx)

    def __invert__(self):
        return LFrame({k: ~c for k, c in self.cols.items()}, self.idx)

    def _red(self, name):
        def f(axis=0, **k):
            if axis not in (0, "index", None):
                raise Unsupported("reduction over columns")
            return LRow({c: getattr(v, name)() for c, v in self.cols.items()})
        return f

    def diff(self, periods=1, axis=0):
        if axis not in (0, "index"):
            raise Unsupported("diff over columns")
        return LFrame({k: c.diff(periods) for k, c in self.cols.items()}, self.idx)

    def copy(self, **k):
        return LFrame(self.cols, self.idx)

    def __getattr__(self, a):
        if a in ("max", "min", "mean", "median", "sum", "any", "all"):
            return self._red(a)
        if a in self.__dict__.get("cols", {}):
            return self.cols[a]
        raise Unsupported("frame attribute %s" % a)


for _c in (LCol, LRow, LFrame):
    _install_ops(_c)

INSTALLED = []


def install():
    from . import frames
    frames.install()
    if INSTALLED:
        return
    INSTALLED.append(1)
    import numpy as np

    def wrap(f, g):
        old = models.MODELS.get(id(f))

        def m(*a, **k):
            if a and isinstance(a[0], (LCol, LFrame)):
                return g(*a, **k)
            return old(*a, **k) if old else f(*a, **k)
        models.MODELS[id(f)] = m
        models._KEEP.append(f)
    def _diff(x):
        return LCol([arith("-", x.c[i], x.c[i - 1]) for i in range(1, len(x.c))])
    wrap(np.diff, _diff)
    wrap(np.median, lambda x: median(x.c))
    wrap(np.mean, lambda x: mean(x.c))
    wrap(np.nanmean, lambda x: mean(x.c))
    wrap(np.isnan, lambda x: x.isna())
    wrap(np.abs, lambda x: x.abs())
    wrap(np.max, lambda x: x.max())
    wrap(np.min, lambda x: x.min())
    wrap(np.any, lambda x: x.any())
    wrap(np.all, lambda x: x.all())
    wrap(np.array, lambda x, *a, **k: x)
    wrap(np.asarray, lambda x, *a, **k: x)
