"""real pandas frames / numpy object arrays whose cells are symbolic numbers.

pandas and numpy only carry, select, compare (forking the path) and combine the cells; the numerical reductions below are
given their mathematical definition, or are uninterpreted functions of their arguments (log10, skew, kurtosis)."""
import math
import numpy as np
import pandas as pd
import z3
from . import models
from .core import ex, Unsupported
from .values import *
from .values import Sym
from .lframe import cell, isnan, NAN

UF = {}


def uf(name, *args):
    """uninterpreted real function of the arguments"""
    k = (name, len(args))
    if k not in UF:
        UF[k] = z3.Function("uf_%s%d" % (name, len(args)), *([z3.RealSort()] * (len(args) + 1)))
    cs = [cell(a) for a in args]
    n = z3.simplify(z3.Or(*[isnan(c) for c in cs])) if cs else z3.BoolVal(False)
    return SymNum(UF[k](*[real(znum(c)) for c in cs]), None if z3.is_false(n) else n)


def symcells(x):
    if isinstance(x, (pd.Series, pd.Index)):
        x = x.values if x.dtype == object else None
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(c, Sym) for c in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(isinstance(c, Sym) for c in (list.__iter__(x) if isinstance(x, list) else x))
    return False


def lst(x):
    if isinstance(x, (pd.Series, pd.Index)):
        return list(x.values)
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    return list(x)


def arr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def isn(c):
    if isinstance(c, SymNum):
        return False if c.nan is None else bool(SymBool(c.nan))
    return isinstance(c, float) and c != c


def valid(x):
    return [c for c in lst(x) if not isn(c)]


def total(cs):
    s = 0
    for c in cs:
        s = s + c
    return s


def mean(cs):
    return total(cs) / len(cs) if len(cs) else float("nan")


def var(cs):
    if not cs:
        return float("nan")
    m = mean(cs)
    return total([(c - m) * (c - m) for c in cs]) / len(cs)


def extreme(cs, up):
    if not cs:
        return float("nan")
    if any(isn(c) for c in cs):
        return float("nan")
    r = cs[0]
    for c in cs[1:]:
        if bool(c > r) if up else bool(c < r):
            r = c
    return r


def extreme_term(cs, up):
    """the extreme as one term, without case splits"""
    if not cs or not any(isinstance(c, Sym) for c in cs):
        return extreme(cs, up)
    r = real(znum(cs[0]))
    for c in cs[1:]:
        c = real(znum(c))
        r = z3.If(c > r if up else c < r, c, r)
    return SymNum(r)


def median(cs):
    if any(isn(c) for c in cs) or not cs:
        return float("nan")
    s = [real(znum(c)) for c in cs]
    for i in range(len(s)):          # exchange sort, without case splits
        for j in range(len(s) - 1 - i):
            x, y = s[j], s[j + 1]
            s[j], s[j + 1] = z3.If(x <= y, x, y), z3.If(x <= y, y, x)
    n = len(s)
    return SymNum(z3.simplify(s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2))


def absv(c):
    if isinstance(c, SymNum):
        return abs(c)
    return abs(c)


def line(xs, ys):
    """least squares line through points with concrete abscissae: (slope, intercept)"""
    if symcells(xs):
        raise Unsupported("polyfit over symbolic abscissae")
    xs = [values_frac(x) for x in lst(xs)]
    ys = lst(ys)
    xm = sum(xs) / len(xs)
    sxx = sum((x - xm) ** 2 for x in xs)
    if sxx == 0:
        raise Unsupported("polyfit of one abscissa")
    slope = total([y * ((x - xm) / sxx) for x, y in zip(xs, ys)])
    return slope, mean(ys) - slope * xm


def values_frac(x):
    from fractions import Fraction
    return Fraction(float(x)).limit_denominator(10 ** 9)


def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, Sym):
            return f(x)
        r = arr([f(c) for c in lst(x)])
        return pd.Series(r, index=x.index) if isinstance(x, pd.Series) else r
    return g


class CellFile(models.VFile):
    """delimited file with symbolic cells. Assumed contract of pandas.read_csv: the cells of the table, by column name, in order"""
    def __init__(self, path, frame, sep, preamble, index):
        super().__init__(path, "r")
        self.frame, self.sep, self.index, self.preamble = frame, sep, index, preamble
        self.out = ["".join(ln + "\n" for ln in preamble)]

    def read_csv(self, **k):
        if k.get("header", 1) in (0, "infer"):
            k.pop("header")
        sep = k.pop("sep", k.pop("delimiter", ","))
        ic = k.pop("index_col", None)
        skip = k.pop("skiprows", 0)
        k.pop("encoding", None)
        if k or sep != self.sep or skip != len(self.preamble) or ic not in (None, 0):
            raise Unsupported("read_csv options")
        fr = self.frame.copy()
        if self.index:
            if ic is None:
                fr.insert(0, "Unnamed: 0", list(range(len(fr))))
        elif ic == 0:
            fr = fr.set_index(fr.columns[0])
        return fr


class TableFile(models.VFile):
    """file written by DataFrame.to_csv. Assumed contract: a line of names (if header), then one line per row with the cells in column order"""
    def __init__(self, path, frame, sep, header, index):
        super().__init__(path, "w")
        self.frame, self.sep, self.header, self.index = frame, sep, header, index

    def lines(self):
        fr = self.frame.reset_index() if self.index else self.frame
        out = [[("" if self.index and j == 0 else c) for j, c in enumerate(fr.columns)]] if self.header else []
        return out + [[fr.iloc[i, j] for j in range(fr.shape[1])] for i in range(len(fr))]


def astype(c, dtype):
    """machine arithmetic is treated as exact: conversions to float types keep the number"""
    if str(dtype).startswith(("float",)) or dtype is float:
        return c
    if str(dtype).startswith(("int", "uint")) or dtype is int:
        if isinstance(c, SymNum) and c.z.sort() == z3.IntSort():
            return c
    raise Unsupported("astype %s of a symbolic cell" % (dtype,))


INSTALLED = []


def install():
    from . import lframe
    lframe.install()
    import sys
    if "sklearn.preprocessing" in sys.modules and "scaler" not in INSTALLED:
        INSTALLED.append("scaler")
        scalers()
    if 1 in INSTALLED:
        return
    INSTALLED.append(1)
    import scipy.stats

    def wrap(f, g, scalar=False):
        old = models.MODELS.get(id(f))

        def m(*a, **k):
            if a and (symcells(a[0]) or scalar and isinstance(a[0], SymNum)):
                return g(*a, **k)
            return old(*a, **k) if old else f(*a, **k)
        models.MODELS[id(f)] = m
        models._KEEP.append(f)

    def bools(x):
        r = np.array([isn(c) for c in lst(x)], dtype=bool)
        return pd.Series(r, index=x.index) if isinstance(x, pd.Series) else r
    wrap(np.isnan, lambda x: isn(x) if isinstance(x, SymNum) else bools(x), scalar=True)
    wrap(np.isfinite, lambda x: not isn(x) if isinstance(x, SymNum) else ~bools(x), scalar=True)      # symbolic reals are finite
    wrap(np.log10, elementwise(lambda c: uf("log10", c)), scalar=True)
    for f in {id(np.absolute): np.absolute, id(np.abs): np.abs}.values():
        wrap(f, elementwise(absv), scalar=True)
    wrap(np.square, elementwise(lambda c: c * c), scalar=True)
    vals = lambda x: valid(x) if isinstance(x, pd.Series) else lst(x)       # reductions of a Series skip missing values
    wrap(np.sum, lambda x: total(vals(x)))
    wrap(np.nansum, lambda x: total(valid(x)))
    wrap(np.mean, lambda x: mean(vals(x)))
    wrap(np.nanmean, lambda x: mean(valid(x)))
    wrap(np.var, lambda x: var(vals(x)))
    wrap(np.nanvar, lambda x: var(valid(x)))
    wrap(np.min, lambda x: extreme(vals(x), False))
    wrap(np.max, lambda x: extreme(vals(x), True))

    def argext(up):
        def g(x):
            xs = lst(x)
            ok = [i for i, c in enumerate(xs) if not isn(c)]
            if not isinstance(x, pd.Series) and len(ok) < len(xs) or not ok:
                raise Unsupported("np.argmin of missing values")
            k = ok[0]
            for i in ok[1:]:
                if bool(xs[i] > xs[k]) if up else bool(xs[i] < xs[k]):
                    k = i
            return k
        return g
    wrap(np.argmin, argext(False))
    wrap(np.argmax, argext(True))
    wrap(np.nanargmin, lambda x: argext(False)(pd.Series(arr(lst(x)))))
    wrap(np.nanargmax, lambda x: argext(True)(pd.Series(arr(lst(x)))))
    wrap(np.nanmin, lambda x: extreme(valid(x), False))
    wrap(np.nanmax, lambda x: extreme(valid(x), True))
    wrap(np.median, lambda x: median(lst(x)))
    wrap(np.asarray, lambda x, *a, **k: arr(lst(x)))
    wrap(np.array, lambda x, *a, **k: arr(lst(x)))
    wrap(scipy.stats.skew, lambda x: uf("skew", *lst(x)))

    def repeat(x, n, **k):
        if isinstance(x, SymNum) and not k and isinstance(n, (int, np.integer)):
            return arr([x] * int(n))
        raise Unsupported("np.repeat form")
    wrap(np.repeat, repeat, scalar=True)

    def gradient(f, *x, **k):
        if k or len(x) != 1 or np.ndim(x[0]) != 1 or len(lst(f)) < 2 or symcells(x[0]):
            raise Unsupported("np.gradient form")
        f, x = lst(f), [values_frac(v) for v in lst(x[0])]
        out = []
        for i in range(len(f)):       # second order at inner points, one-sided at the ends (numpy documentation)
            if i in (0, len(f) - 1):
                a, b = (0, 1) if i == 0 else (i - 1, i)
                out.append((f[b] - f[a]) / (x[b] - x[a]))
            else:
                hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
                den = hs * hd * (hs + hd)
                out.append(f[i + 1] * (hs * hs / den) + f[i] * ((hd * hd - hs * hs) / den) - f[i - 1] * (hd * hd / den))
        return arr(out)
    wrap(np.gradient, gradient)

    def diff(x, *a, **k):
        if a or k or np.ndim(np.asarray(lst(x), dtype=object)) != 1:
            raise Unsupported("np.diff form")
        x = lst(x)
        return arr([v - u for u, v in zip(x, x[1:])])
    wrap(np.diff, diff)

    old_append = models.MODELS.get(id(np.append))

    def append(x, y, *a, **k):
        if a or k or not (symcells(x) or symcells(y)):
            return old_append(x, y, *a, **k) if old_append else np.append(x, y, *a, **k)
        return arr(lst(x) + lst(y))
    models.MODELS[id(np.append)] = append
    models._KEEP.append(np.append)

    def rnd(x, nd=0, **k):
        r = [sym_round(c, nd) if isinstance(c, Sym) else round(c, nd) for c in lst(x)]
        return pd.Series(arr(r), index=x.index) if isinstance(x, pd.Series) else arr(r)
    for f in {id(np.round): np.round, id(np.around): np.around}.values():
        wrap(f, rnd)

    def kurt(x, fisher=True, bias=True):
        return uf("kurtosis_%s_%s" % (fisher, bias), *lst(x))
    wrap(scipy.stats.kurtosis, kurt)
    old = models.MODELS.get(id(np.polyfit))

    def pf(x, y, deg, **k):
        if symcells(y) and deg == 1 and not k:
            return arr(list(line(x, y)))
        if symcells(y):
            raise Unsupported("polyfit")
        return np.polyfit(x, y, deg, **k)
    models.MODELS[id(np.polyfit)] = pf
    models._KEEP.append(np.polyfit)

    from . import frames
    frames.install()
    oldcsv = models.MODELS.get(id(pd.read_csv))

    def read_csv(path, *a, **k):
        f = ex().vfs.get(path) if isinstance(path, str) else None
        if isinstance(f, CellFile):
            if a:
                raise Unsupported("read_csv options")
            return f.read_csv(**k)
        return oldcsv(path, *a, **k)
    models.MODELS[id(pd.read_csv)] = read_csv
    models._KEEP.append(pd.read_csv)
    from pandas.core.generic import NDFrame
    oldas = NDFrame.astype

    def as_type(self, dtype, *a, **k):
        if isinstance(self, pd.Series) and symcells(self):
            d = dtype.get(self.name, None) if isinstance(dtype, dict) else dtype
            return self.copy() if d is None or d is object or str(d) == "object" else pd.Series(arr([astype(c, d) if isinstance(c, Sym) else c for c in self.values]), index=self.index, name=self.name)
        if isinstance(self, pd.DataFrame) and isinstance(dtype, dict):
            for c in dtype:
                if c not in self.columns:
                    return oldas(self, dtype, *a, **k)
            if any(symcells(self[c]) for c in dtype):
                r = self.copy()
                for c, d in dtype.items():
                    r[c] = self[c].astype(d)
                return r
        return oldas(self, dtype, *a, **k)
    NDFrame.astype = as_type

    def method(name, g):         # Series reductions that insist on floats
        old = getattr(pd.Series, name)

        def m(self, *a, **k):
            if not a and all(v is None or v is False and x == "numeric_only" for x, v in k.items()) and symcells(self):
                return g(valid(self))
            return old(self, *a, **k)
        setattr(pd.Series, name, m)
    method("mean", mean)
    method("median", median)
    method("min", lambda cs: extreme_term(cs, False))
    method("max", lambda cs: extreme_term(cs, True))

    def position(name, up, label):
        old = getattr(pd.Series, name)

        def m(self, *a, **k):
            if not a and not k and symcells(self):
                i = argext(up)(self)
                return self.index[i] if label else i
            return old(self, *a, **k)
        setattr(pd.Series, name, m)
    for name, up, label in (("argmin", False, False), ("argmax", True, False), ("idxmin", False, True), ("idxmax", True, True)):
        position(name, up, label)

    def framestat(name, g):      # column-wise reductions of frames
        old = getattr(pd.DataFrame, name)

        def m(self, axis=0, **k):
            if axis in (0, "index") and not k and any(symcells(self.iloc[:, j]) for j in range(self.shape[1])):
                return pd.Series(arr([getattr(self.iloc[:, j], name)() for j in range(self.shape[1])]), index=self.columns)
            return old(self, axis=axis, **k)
        setattr(pd.DataFrame, name, m)
    framestat("mean", mean)
    framestat("median", median)
    oldfs, oldfd = pd.Series.fillna, pd.DataFrame.fillna

    def fill_series(self, value=None, **k):
        if value is not None and not k and (isinstance(value, Sym) or symcells(self)):
            return pd.Series(arr([value if isn(c) else c for c in self.values]), index=self.index, name=self.name)
        return oldfs(self, value, **k)

    def fill_frame(self, value=None, **k):
        if value is not None and not k and (deep(value) or any(symcells(self.iloc[:, j]) for j in range(self.shape[1]))):
            cs = []
            for j, c in enumerate(self.columns):
                if isinstance(value, (pd.Series, dict)):
                    cs.append(self.iloc[:, j].fillna(value[c]) if c in value else self.iloc[:, j])
                else:
                    cs.append(self.iloc[:, j].fillna(value))
            r = pd.concat(cs, axis=1) if cs else self.copy()
            r.columns = self.columns
            return r
        return oldfd(self, value, **k)

    def deep(v):
        return isinstance(v, Sym) or symcells(v) or isinstance(v, dict) and symcells(list(v.values()))
    oldto = pd.DataFrame.to_csv

    def to_csv(self, path=None, *a, **k):
        if a or not models._virtual(path):
            if any(symcells(self.iloc[:, j]) for j in range(self.shape[1])):
                raise Unsupported("text of a table with symbolic cells")
            return oldto(self, path, *a, **k)
        sep, head, index = k.pop("sep", ","), k.pop("header", True), k.pop("index", True)
        if k:
            raise Unsupported("to_csv options")
        ex().vfs[path] = TableFile(path, self.copy(), sep, bool(head), bool(index))
    to_csv.__vc_symbolic__ = True
    pd.DataFrame.to_csv = to_csv
    fill_series.__vc_symbolic__ = fill_frame.__vc_symbolic__ = True
    pd.Series.fillna, pd.DataFrame.fillna = fill_series, fill_frame


def scalers():
    from sklearn.preprocessing import StandardScaler
    models.MODELS[id(StandardScaler)] = Scaler
    models._KEEP.append(StandardScaler)


class Scaler:
    """assumed contract of sklearn's StandardScaler on symbolic cells: centred with the column mean, divided by a positive
    function of the column; on floats the real class runs"""
    __vc_symbolic__ = True

    def __init__(self, *a, **k):
        from sklearn.preprocessing import StandardScaler
        self.real = StandardScaler(*a, **k)
        self.sym = False

    def fit(self, X, y=None):
        cols = [lst(X.iloc[:, j]) for j in range(X.shape[1])] if isinstance(X, pd.DataFrame) else [list(X[:, j]) for j in range(X.shape[1])]
        self.sym = any(symcells(c) for c in cols)
        if not self.sym:
            self.real.fit(X.astype(float) if isinstance(X, pd.DataFrame) else X)
            self.mean_, self.scale_ = self.real.mean_, self.real.scale_
            return self
        self.mean_ = [mean(valid(c)) for c in cols]
        self.scale_ = [uf("std", *valid(c)) for c in cols]
        for s in self.scale_:
            ex().assume(s.z > 0)
        return self

    def transform(self, X):
        get = (lambda i, j: X.iloc[i, j]) if isinstance(X, pd.DataFrame) else (lambda i, j: X[i, j])
        r = np.empty(X.shape, dtype=object)
        for i in range(X.shape[0]):
            for j in range(X.shape[1]):
                r[i, j] = (get(i, j) - self.mean_[j]) / self.scale_[j]
        return r

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)
