"""Symbolic Python values: booleans, numbers (mathematical ints / reals, optional NaN flag),
string ropes, unbounded sequences, and list/dict/set subclasses with a symbolic mode."""
import math
import numbers
import re as _re
from fractions import Fraction
import z3
from . import core
from .core import ex, Unsupported, PathEnd


# --------------------------------------------------------------------------- scalars
class Sym:
    """Base of all symbolic values."""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


HASH_OK = [0]


class hashing:
    def __enter__(self):
        HASH_OK[0] += 1

    def __exit__(self, *a):
        HASH_OK[0] -= 1


def _hash(x):
    """symbolic values may only be hashed inside the symbolic-aware containers"""
    if not HASH_OK[0]:
        raise Unsupported("symbolic value used as a key of a native container")
    return x


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non-finite float constant in symbolic arithmetic")
    return Fraction(repr(x))


def is_num(x):
    return isinstance(x, numbers.Real) or isinstance(x, SymNum)


def znum(x):
    """z3 arithmetic term of a python/symbolic number"""
    if isinstance(x, SymNum):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool) or isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if type(x).__name__ in ("bool_",):
        return z3.IntVal(int(x))
    f = frac(x)
    return z3.RealVal(f)


def _coerce(a, b):
    if a.is_int() and b.is_real():
        a = z3.ToReal(a)
    elif a.is_real() and b.is_int():
        b = z3.ToReal(b)
    return a, b


def real(z):
    return z3.ToReal(z) if z.is_int() else z


class SymBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ex().branch(self.z)

    def __and__(self, o):
        return SymBool(z3.And(self.z, core.zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, core.zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, core.zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z == core.zbool(o))
        if is_num(o):
            return SymNum(znum(self)) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(_hash(self).z)

    def __add__(self, o):
        return SymNum(znum(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return SymNum(znum(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return "SymBool(%s)" % core.zstr(self.z)

    def astype(self, t):
        if t in (bool, "bool"):
            return self
        return SymNum(znum(self))


def not_(c):
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.z))
    return not c


def and_(*cs):
    if any(isinstance(c, SymBool) for c in cs):
        return SymBool(z3.And([core.zbool(c) for c in cs]))
    return all(bool(c) for c in cs)


def or_(*cs):
    if any(isinstance(c, SymBool) for c in cs):
        return SymBool(z3.Or([core.zbool(c) for c in cs]))
    return any(bool(c) for c in cs)


def implies(a, b):
    return or_(not_(a), b)


def num_of(x):
    return x.item() if type(x).__module__ == "numpy" else x


class SymNum(Sym):
    """int (z3 Int) or float (z3 Real, mathematical). nan: optional z3 Bool."""
    __slots__ = ("z", "nan")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, z, nan=None):
        self.z = z
        self.nan = nan

    @property
    def isint(self):
        return self.z.is_int()

    def _bin(self, o, op, rev=False):
        if isinstance(o, SymBool):
            o = SymNum(znum(o))
        if isinstance(o, float) and math.isnan(o):
            return float("nan")
        if type(o).__name__ == "ndarray" and o.ndim == 1:
            import numpy as np
            r = np.empty(len(o), dtype=object)
            for i in range(len(o)):
                r[i] = self._bin(num_of(o[i]), op, rev)
            return r
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(self.z, znum(o))
        if rev:
            a, b = b, a
        return SymNum(op(a, b), _ornan(self.nan, getattr(o, "nan", None)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            za, zb = real(znum(a)), real(znum(b))
            if not isinstance(b, SymNum):
                if frac(b) == 0:
                    raise ZeroDivisionError("division by zero")
            elif ex().branch(zb == 0):
                raise ZeroDivisionError("division by zero")
            return SymNum(za / zb, _ornan(getattr(a, "nan", None), getattr(b, "nan", None)))

    def _divs(self, o, rev):
        import numpy as np
        r = np.empty(len(o), dtype=object)
        for i in range(len(o)):
            x = num_of(o[i])
            r[i] = self._div(x, self) if rev else self._div(self, x)
        return r

    def __truediv__(self, o):
        if type(o).__name__ == "ndarray" and o.ndim == 1:
            return self._divs(o, False)
        return self._div(self, o) if is_num(o) else NotImplemented

    def __rtruediv__(self, o):
        if type(o).__name__ == "ndarray" and o.ndim == 1:
            return self._divs(o, True)
        return self._div(o, self) if is_num(o) else NotImplemented

    def _floordiv(self, a, b):
        za, zb = znum(a), znum(b)
        if isinstance(b, SymNum):
            if ex().branch(zb == 0):
                raise ZeroDivisionError()
        elif frac(b) == 0:
            raise ZeroDivisionError()
        if za.is_int() and zb.is_int():
            # python floor division; z3 div is euclidean
            if not isinstance(b, SymNum) and int(b) > 0:
                return SymNum(za / zb)
            q = z3.ToInt(z3.ToReal(za) / z3.ToReal(zb))
            return SymNum(q)
        return SymNum(z3.ToReal(z3.ToInt(real(za) / real(zb))), _ornan(getattr(a, "nan", None), getattr(b, "nan", None)))

    def __floordiv__(self, o):
        return self._floordiv(self, o) if is_num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._floordiv(o, self) if is_num(o) else NotImplemented

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        if self.isint and isinstance(o, int) and o > 0:
            return SymNum(self.z % o)
        return self - self._floordiv(self, o) * o

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return o - self._floordiv(o, self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = SymNum(z3.IntVal(1) if self.isint else z3.RealVal(1), self.nan)
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, int) and o < 0:
            return 1 / (self ** (-o))
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return SymNum(-self.z, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.z >= 0, self.z, -self.z), self.nan)

    def _cmp(self, o, op, onnan=False, infres=None):
        if isinstance(o, SymBool):
            o = SymNum(znum(o))
        if isinstance(o, float) and math.isnan(o):
            return onnan
        if isinstance(o, float) and math.isinf(o):
            r = SymBool(z3.BoolVal(infres(o > 0)))
            return r if self.nan is None else SymBool(z3.If(self.nan, z3.BoolVal(onnan), r.z))
        if not is_num(o):
            return NotImplemented
        a, b = _coerce(self.z, znum(o))
        r = op(a, b)
        nn = _ornan(self.nan, getattr(o, "nan", None))
        if nn is not None:
            r = z3.And(z3.Not(nn), r) if not onnan else z3.Or(nn, r)
        return SymBool(r)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, lambda p: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, lambda p: True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False, lambda p: p)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False, lambda p: p)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, lambda p: not p)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, lambda p: not p)

    def __bool__(self):
        if self.nan is not None:
            return ex().branch(z3.Or(self.nan, self.z != 0))
        return ex().branch(self.z != 0)

    def __hash__(self):
        return hash(_hash(self).z)

    def __index__(self):
        v = concrete_int(self)
        if v is None:
            raise Unsupported("symbolic integer used as a concrete index/size")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic number passed to un-modelled float()")

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def __format__(self, spec):
        raise Unsupported("symbolic number formatted outside the model")

    def __str__(self):
        raise Unsupported("str() of a symbolic number outside the model")

    def __repr__(self):
        return "SymNum(%s)" % core.zstr(self.z)

    # numpy-scalar look-alikes
    def item(self):
        return self

    def astype(self, t):
        if t in (int, "int", "int64", "int32"):
            return trunc(self)
        return SymNum(real(self.z), self.nan)

    @property
    def size(self):
        return 1


def _ornan(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def concrete_int(x):
    """the integer value if the path condition fixes it, else None"""
    if isinstance(x, numbers.Integral):
        return int(x)
    z = z3.simplify(x.z)
    if z3.is_int_value(z):
        return z.as_long()
    return None


def force_int(x, lo=None, hi=None):
    """Concretise an integer by forking over its (finitely many) feasible values."""
    v = concrete_int(x)
    if v is not None:
        return v
    e = ex()
    n = 0
    while True:
        if e._check() != z3.sat:
            raise PathEnd()
        # deterministic candidate: smallest feasible from lo
        m = e.solver.model()
        c = core.model_value(m, x.z)
        if e.branch(x.z == c):
            return c
        n += 1
        if n > 64:
            raise Unsupported("integer with more than 64 feasible values must be concrete here")


def trunc(x):
    """int(x)"""
    if isinstance(x, SymNum):
        if x.isint:
            return x
        if x.nan is not None and ex().branch(x.nan):
            raise ValueError("cannot convert float NaN to integer")
        return SymNum(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
    return int(x)


def sym_round(x, nd=None):
    """round / np.round: nearest multiple of 10^-nd (ties unconstrained)."""
    if x.isint and (nd is None or nd >= 0):
        return x
    nd_ = 0 if nd is None else int(nd)
    scale = Fraction(10) ** nd_
    e = ex()
    key = ("round", x.z.get_id(), nd_)
    if key in e.memo:
        k = e.memo[key][0]
    else:
        k = z3.Int(e.fresh("rnd"))
        y = real(x.z) * z3.RealVal(scale)
        e.assume(z3.And(z3.ToReal(k) - y <= z3.RealVal("1/2"), y - z3.ToReal(k) <= z3.RealVal("1/2")))
        e.memo[key] = (k, x)
    if nd is None:
        return SymNum(k)
    return SymNum(z3.ToReal(k) / z3.RealVal(scale), x.nan)


# --------------------------------------------------------------------------- strings
class Atom:
    __slots__ = ()
    chars = None            # set of characters that can occur, None = anything


class Opaque(Atom):
    """arbitrary text, a z3 String term"""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z


class CoSet:
    """all characters except some"""
    def __init__(self, banned):
        self.banned = frozenset(banned)

    def __and__(self, o):
        return {c for c in o if c not in self.banned}

    __rand__ = __and__

    def __contains__(self, c):
        return c not in self.banned


class Word(Opaque):
    """any nonempty text of at most maxlen characters without the banned ones and without white space at its ends"""
    __slots__ = ("chars", "maxlen")

    def __init__(self, z, banned, maxlen):
        self.z, self.chars, self.maxlen = z, CoSet(banned), maxlen


class IntText(Atom):
    """canonical decimal text of an integer, optionally zero-padded to `width`"""
    __slots__ = ("z", "width")
    chars = set("-0123456789")

    def __init__(self, z, width=0):
        self.z, self.width = z, width


class FixText(Atom):
    """text produced by '%.{prec}f': value is a multiple of 10^-prec"""
    __slots__ = ("z", "prec")
    chars = set("-0123456789.")

    def __init__(self, z, prec):
        self.z, self.prec = z, prec


class NumText(Atom):
    """some decimal literal text whose float value is z (input files); nonempty, no spaces"""
    __slots__ = ("z", "tag")
    chars = set("-+0123456789.eE")

    def __init__(self, z, tag=None):
        self.z, self.tag = z, tag


class PadText(Atom):
    """a padded rendering of another rope (ljust): inner, width"""
    __slots__ = ("inner", "width")

    def __init__(self, inner, width):
        self.inner, self.width = inner, width


def atom_value(a):
    if isinstance(a, (IntText, FixText, NumText)):
        return a.z
    return None


class SymStr(Sym):
    __slots__ = ("p",)

    def __init__(self, pieces):
        q = []
        for x in pieces:
            if isinstance(x, SymStr):
                q.extend(x.p)
            else:
                q.append(x)
        out = []
        for x in q:
            if isinstance(x, str):
                if x == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
        self.p = out

    @staticmethod
    def make(pieces):
        s = SymStr(pieces)
        if not s.p:
            return ""
        if len(s.p) == 1 and isinstance(s.p[0], str):
            return s.p[0]
        return s

    def single(self):
        return self.p[0] if len(self.p) == 1 else None

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr.make([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr.make([o, self])
        return NotImplemented

    def __mul__(self, o):
        raise Unsupported("repetition of a symbolic string")

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        return not_(str_eq(self, o))

    def __hash__(self):
        return hash(tuple(x if isinstance(x, str) else id(x) for x in _hash(self).p))

    def __bool__(self):
        if any(isinstance(x, str) or isinstance(x, (IntText, FixText, NumText, Word)) for x in self.p):
            return True
        return bool(or_(*[SymBool(z3.Length(x.z) > 0) for x in self.p]))

    def zterm(self):
        """as a z3 String term, if every atom is opaque"""
        ts = []
        for x in self.p:
            if isinstance(x, str):
                ts.append(z3.StringVal(x))
            elif isinstance(x, Opaque):
                ts.append(x.z)
            else:
                raise Unsupported("numeric text in string reasoning")
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __str__(self):
        raise Unsupported("str() of a symbolic string outside the model")

    def __repr__(self):
        return "SymStr(%s)" % "".join(x if isinstance(x, str) else "<%s>" % type(x).__name__ for x in self.p)

    def __format__(self, spec):
        raise Unsupported("symbolic string formatted outside the model")

    def __len__(self):
        raise Unsupported("len() of a symbolic string outside the model")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return rope_slice(self, i)
        raise Unsupported("indexing symbolic text")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic string")

    def __contains__(self, o):
        return bool(str_contains(self, o))

    # methods (also reached through models.callm)
    def lower(self):
        return _case(self, "lower")

    def upper(self):
        return _case(self, "upper")

    def rstrip(self, chars=None):
        q = list(self.p)
        if isinstance(q[-1], str):
            r = q[-1].rstrip(chars)
            if r:
                return SymStr.make(q[:-1] + [r])
            q = q[:-1]
            return SymStr(q).rstrip(chars) if q else ""
        a = q[-1]
        if isinstance(a, (IntText, FixText, NumText)):
            cut = set(chars if chars is not None else " ") & a.chars
            if not cut:
                return SymStr.make(q)
            if isinstance(a, FixText) and a.prec > 0 and cut == {"0"}:
                return SymStr.make(q[:-1] + [NumText(a.z, ("stripped", a.z.sexpr()))])
            if isinstance(a, FixText) and a.prec > 0 and cut == {"0", "."} and len(q) == 1:
                if not ex().branch(z3.ToReal(z3.ToInt(a.z)) == a.z):
                    return SymStr.make([NumText(a.z, ("stripped", a.z.sexpr()))])
                if ex().branch(a.z == 0):
                    return ""
                k = z3.ToInt(a.z)
                if not ex().branch(k % 10 == 0):
                    return SymStr.make([IntText(k)])
                w = z3.Real(ex().fresh("stripped"))
                ex().assume(w != a.z)       # trailing zeros of the integer part are gone
                return SymStr.make([NumText(w, ("stripped", w.sexpr()))])
            if isinstance(a, NumText) and isinstance(a.tag, tuple) and cut == {"."}:
                return SymStr.make(q)
        raise Unsupported("rstrip")

    def strip(self, chars=None):
        q = list(self.p)
        if chars is not None and q and any(not isinstance(x, str) and set(chars) & getattr(x, "chars", set()) for x in (q[0], q[-1])):
            raise Unsupported("strip of digits")
        if q and isinstance(q[-1], PadText) and chars is None:
            return SymStr.make(q[:-1] + [q[-1].inner]).strip()
        if q and isinstance(q[0], str):
            q[0] = q[0].lstrip(chars)
        elif q and isinstance(q[0], Opaque) and not (isinstance(q[0], Word) and chars is None):
            return SymStr.make([Opaque(_ufs("strip")(self.zterm()))]) if chars is None else _un("strip")
        if q and isinstance(q[-1], str):
            q[-1] = q[-1].rstrip(chars)
        elif q and isinstance(q[-1], Opaque) and not (isinstance(q[-1], Word) and chars is None):
            return SymStr.make([Opaque(_ufs("strip")(self.zterm()))]) if chars is None else _un("strip")
        if q and (q[0] == "" or q[-1] == ""):
            return SymStr.make(q).strip(chars) if len(q) > 1 and isinstance(SymStr.make(q), SymStr) else SymStr.make(q)
        return SymStr.make(q)

    def zfill(self, w):
        a = self.single()
        if isinstance(a, IntText):
            return SymStr([IntText(a.z, max(a.width, w))])
        raise Unsupported("zfill")

    def ljust(self, w, fill=" "):
        if fill != " ":
            raise Unsupported("ljust fill")
        return SymStr([PadText(self, w)])

    def split(self, sep=None, maxsplit=-1):
        if sep is None or not isinstance(sep, str):
            raise Unsupported("split variant")
        parts, cur = [], []
        for n_, x in enumerate(self.p):
            if isinstance(x, str):
                if any(x.endswith(sep[:k]) for k in range(1, len(sep))) and n_ + 1 < len(self.p) and sep[-1] != " " \
                        or any(x.startswith(sep[-k:]) for k in range(1, len(sep))) and n_ > 0 and sep[0] != " ":
                    raise Unsupported("separator could overlap symbolic text")
                bits = x.split(sep) if maxsplit < 0 else x.split(sep, maxsplit - len(parts))
                cur.append(bits[0])
                for b in bits[1:]:
                    parts.append(SymStr.make(cur))
                    cur = [b]
            else:
                if maxsplit >= 0 and len(parts) == maxsplit:
                    pass
                elif x.chars is None or (set(sep) & x.chars if not isinstance(x, Word) else set(sep) <= (x.chars & set(sep))):
                    raise Unsupported("split of text that may contain the separator")
                cur.append(x)
        parts.append(SymStr.make(cur))
        return parts

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return or_(*[self.startswith(q) for q in pre])
        if isinstance(self.p[0], str) and len(self.p[0]) >= len(pre):
            return self.p[0].startswith(pre)
        if isinstance(self.p[0], str) and not pre.startswith(self.p[0]):
            return False
        if isinstance(self.p[0], (IntText, FixText, NumText)) and pre and pre[0] not in self.p[0].chars:
            return False
        if isinstance(self.p[0], Word) and pre and (pre[0] not in self.p[0].chars or pre[0].isspace()):
            return False
        return SymBool(z3.PrefixOf(z3.StringVal(pre), self.zterm()))

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return or_(*[self.endswith(q) for q in suf])
        if isinstance(self.p[-1], str) and len(self.p[-1]) >= len(suf):
            return self.p[-1].endswith(suf)
        if isinstance(self.p[-1], str) and not suf.endswith(self.p[-1]):
            return False
        if isinstance(self.p[-1], (IntText, FixText, NumText)) and suf and suf[-1] not in self.p[-1].chars:
            return False
        return SymBool(z3.SuffixOf(z3.StringVal(suf), self.zterm()))

    def replace(self, old, new, *a):
        for x in self.p:
            if not isinstance(x, str) and (x.chars is None or set(old) & x.chars):
                raise Unsupported("replace in symbolic text")
        return SymStr.make([x.replace(old, new, *a) if isinstance(x, str) else x for x in self.p])

    def encode(self, *a, **k):
        return self

    def decode(self, *a, **k):
        return self


def _un(m):
    raise Unsupported(m)


def _ufs(name):
    return z3.Function("str_" + name, z3.StringSort(), z3.StringSort())


def _case(s, which):
    if all(isinstance(x, str) or isinstance(x, (IntText, FixText)) for x in s.p):
        return SymStr.make([getattr(x, which)() if isinstance(x, str) else x for x in s.p])
    return SymStr([Opaque(_ufs(which)(s.zterm()))])


_INT = _re.compile(r"-?(0|[1-9][0-9]*)\Z")


def atom_eq_lit(a, lit):
    if isinstance(a, Opaque):
        return SymBool(a.z == z3.StringVal(lit))
    if isinstance(a, IntText):
        if a.width == 0:
            return SymBool(a.z == int(lit)) if _INT.match(lit) and lit != "-0" else False
        if _re.match(r"-?[0-9]+\Z", lit) and (len(lit) == a.width or (len(lit) > a.width and _INT.match(lit))):
            return SymBool(a.z == int(lit))
        return False
    if isinstance(a, FixText):
        if a.prec and not _re.match(r"-?(0|[1-9][0-9]*)\.[0-9]{%d}\Z" % a.prec, lit):
            return False
        if lit.startswith("-0.") and float(lit) == 0:
            raise Unsupported("negative zero text")
        return SymBool(real(a.z) == z3.RealVal(Fraction(lit)))
    if isinstance(a, NumText):
        try:
            f = Fraction(lit)
        except ValueError:
            return False
        # same text implies same value; different value implies different text
        if not ex().branch(real(a.z) == z3.RealVal(f)):
            return False
        raise Unsupported("textual comparison of numeric input text")
    raise Unsupported("text comparison")


def str_eq(a, b):
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    pa = a.p
    pb = [b] if isinstance(b, str) else list(b.p)
    if pb == [""]:
        pb = []
    if pa == pb:
        return True
    if all(isinstance(x, (str, Opaque)) for x in pa) and all(isinstance(x, (str, Opaque)) for x in pb):
        zb = z3.StringVal(b) if isinstance(b, str) else b.zterm()
        return SymBool(a.zterm() == zb)
    if not pb:
        return False if any(isinstance(x, str) or isinstance(x, (IntText, FixText, NumText, Word)) for x in pa) else _un("eq empty")
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(y, str):
            return atom_eq_lit(x, y)
        if isinstance(x, str):
            return atom_eq_lit(y, x)
        if type(x) is type(y):
            if isinstance(x, IntText) and x.width == y.width:
                return SymBool(x.z == y.z)
            if isinstance(x, FixText) and x.prec == y.prec:
                return SymBool(real(x.z) == real(y.z))
            if isinstance(x, NumText) and x.tag is not None and x.tag == y.tag:
                return True
            if isinstance(x, PadText) and x.width == y.width:
                return str_eq(x.inner, y.inner)
            if isinstance(x, Opaque):
                return SymBool(x.z == y.z)
        if isinstance(x, FixText) and isinstance(y, IntText) and x.prec > 0:
            return False
        if isinstance(y, FixText) and isinstance(x, IntText) and y.prec > 0:
            return False
        raise Unsupported("comparison of symbolic texts %s/%s" % (type(x).__name__, type(y).__name__))
    # same literal skeleton, atoms of the same kind between non-numeric literals
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        lits_same = all(x == y for x, y in zip(pa, pb) if isinstance(x, str))
        fixed = lambda x, y: isinstance(x, PadText) and isinstance(y, PadText) and x.width == y.width \
            and max_len(x.inner) <= x.width and max_len(y.inner) <= y.width
        sep_ok = all(not (not isinstance(pa[i], str) and not isinstance(pa[i + 1], str)) or fixed(pa[i], pb[i]) for i in range(len(pa) - 1))
        if lits_same and sep_ok:
            return and_(*[str_eq(SymStr([x]), SymStr([y])) for x, y in zip(pa, pb) if not isinstance(x, str)])
    # literal against mixed rope: first/last literal mismatch decides
    if isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    if isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][-n:] != pb[-1][-n:]:
            return False
    if isinstance(b, str):
        r = _match_lit(pa, b)
        if r is not None:
            return r
    raise Unsupported("comparison of symbolic texts")


def _match_lit(pa, lit):
    """rope of literals and numeric atoms against a literal: regex parse when unambiguous"""
    rx, atoms = "", []
    for i, x in enumerate(pa):
        if isinstance(x, str):
            rx += _re.escape(x)
        elif isinstance(x, (IntText, FixText, NumText)):
            if i and not isinstance(pa[i - 1], str):
                return None
            rx += "([-+0-9.eE]+)" if isinstance(x, NumText) else "([-0-9.]+)"
            atoms.append(x)
        else:
            return None
    m = _re.match(rx + r"\Z", lit)
    if not m:
        return False
    return and_(*[atom_eq_lit(a, g) for a, g in zip(atoms, m.groups())])


def flat_chars(s):
    """characters and atoms of a rope; padded cells contribute their text and 'blank or end' markers"""
    for x in s.p:
        if isinstance(x, str):
            yield from x
        elif isinstance(x, PadText):
            yield from (flat_chars(x.inner) if isinstance(x.inner, SymStr) else x.inner)
            yield " "
        else:
            yield x


def _word_contains(hay, needle):
    f = list(flat_chars(hay))
    for x in f:
        if not isinstance(x, str) and not any(c not in x.chars for c in needle):
            raise Unsupported("substring test on symbolic text")
    may = False
    for i in range(-len(needle), len(f)):
        ok = True
        for j, c in enumerate(needle):
            if not 0 <= i + j < len(f):
                ok = False
            elif isinstance(f[i + j], str):
                ok = f[i + j] == c
            else:           # a word: several characters of the needle may lie in it
                w = f[i + j]
                if c.isspace() or c not in w.chars:
                    ok = False
                else:
                    raise Unsupported("substring test on symbolic text")
            if not ok:
                break
        if ok:
            return True
    return False


def rope_len(s):
    """exact length if every symbolic part is a padded cell wide enough, else None"""
    n = 0
    for x in s.p:
        if isinstance(x, str):
            n += len(x)
        elif isinstance(x, PadText) and max_len(x.inner) <= x.width:
            n += x.width
        else:
            return None
    return n


def max_len(s):
    if isinstance(s, str):
        return len(s)
    return sum(len(x) if isinstance(x, str) else x.maxlen if isinstance(x, Word) else 10 ** 9 for x in s.p)


def rope_slice(s, sl):
    n = rope_len(s)
    if n is None or sl.step not in (None, 1) or not all(v is None or isinstance(v, int) for v in (sl.start, sl.stop)):
        raise Unsupported("slice of symbolic text")
    a, b, _ = sl.indices(n)
    out, pos = [], 0
    for x in s.p:
        w = len(x) if isinstance(x, str) else x.width
        lo, hi = max(a - pos, 0), min(b - pos, w)
        if lo < hi:
            if isinstance(x, str):
                out.append(x[lo:hi])
            elif (lo, hi) == (0, w):
                out.append(x)
            else:
                raise Unsupported("slice inside a symbolic cell")
        pos += w
    return SymStr.make(out)


def re_split(pattern, s):
    """atoms stand for one private character each; sound if the text of an atom has none of the characters the pattern names"""
    named = set(_re.sub(r"\\([rntAZbsdwSDW])", lambda m: {"r": "\r", "n": "\n", "t": "\t"}.get(m.group(1), ""), pattern)) - set("[]()^?+*|.\\<!=$:")
    named |= set(_re.findall(r"\\([\[\]().?+*|^$])", pattern))
    if _re.search(r"\\[sdwSDW]|\{", pattern):
        raise Unsupported("re.split pattern on symbolic text")
    table, text = {}, ""
    for x in s.p:
        if isinstance(x, str):
            text += x
            continue
        ws = [y for y in (x.inner.p if isinstance(x, PadText) and isinstance(x.inner, SymStr) else [x]) if not isinstance(y, str)]
        for w in ws:
            if w.chars is None or (named & w.chars):
                raise Unsupported("re.split of text that may contain the separator")
        c = chr(0xE000 + len(table))
        table[c] = x
        text += c
    def back(t):
        if t is None:
            return None
        return SymStr.make([table.get(c, c) for c in t])
    return [back(t) for t in _re.split(pattern, text)]


def str_contains(hay, needle):
    if isinstance(hay, str) and isinstance(needle, str):
        return needle in hay
    if isinstance(needle, str) and isinstance(hay, SymStr):
        if needle == "":
            return True
        if any(isinstance(x, (Word, PadText)) for x in hay.p):
            return _word_contains(hay, needle)
        if any(isinstance(x, str) and needle in x for x in hay.p):
            return True
        if all(isinstance(x, (str, Opaque)) for x in hay.p):
            return SymBool(z3.Contains(hay.zterm(), z3.StringVal(needle)))
        if all(isinstance(x, str) or (x.chars is not None and not (x.chars & set(needle))) for x in hay.p):
            return False
        raise Unsupported("substring test on numeric text")
    zs = lambda s: z3.StringVal(s) if isinstance(s, str) else s.zterm()
    return SymBool(z3.Contains(zs(hay), zs(needle)))


def to_text(x):
    """str(x)"""
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymNum):
        if x.nan is not None:
            return SymStr([Opaque(z3.String(ex().fresh("numtext")))])
        if x.isint:
            return SymStr([IntText(x.z)])
        return SymStr([NumText(x.z, ("repr", x.z.get_id()))])
    if isinstance(x, SymBool):
        return "True" if x else "False"
    return str(x)


def fmt(x, spec):
    if isinstance(x, (SymStr,)):
        if spec in ("", "s"):
            return x
        raise Unsupported("format spec %r of symbolic text" % spec)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    if not isinstance(x, SymNum):
        if deep_symbolic(x):
            return "<symbolic>"
        return format(x, spec)
    if spec == "":
        return to_text(x)
    m = _re.match(r"(0?)=?([0-9]*)d\Z", spec.replace("0=", "0", 1) if spec.startswith("0=") else spec)
    if m and x.isint:
        w = int(m.group(2) or 0)
        if w and not m.group(1):
            raise Unsupported("space padded integer")
        return SymStr([IntText(x.z, w)])
    m = _re.match(r"(0?[0-9]*)\.([0-9]+)f\Z", spec)
    if m:
        if x.nan is not None and ex().branch(x.nan):
            return "nan"
        nd = int(m.group(2))
        r = sym_round(SymNum(real(x.z)), nd)
        return SymStr([FixText(r.z, nd)])
    m = _re.match(r"\.?([0-9]*)[eEgG]\Z", spec)
    raise Unsupported("format spec %r" % spec)


def parse_float(x):
    if isinstance(x, SymNum):
        return SymNum(real(x.z), x.nan)
    if isinstance(x, SymBool):
        return SymNum(real(znum(x)))
    if isinstance(x, SymStr):
        q = x.strip()
        if isinstance(q, str):
            return float(q)
        a = q.single()
        if isinstance(a, (IntText, FixText, NumText)):
            return SymNum(real(a.z))
        if len(q.p) == 2 and isinstance(q.p[0], str) and q.p[0] == "-" and isinstance(q.p[1], (IntText, FixText, NumText)):
            if ex().branch(q.p[1].z < 0):
                raise ValueError("could not convert string to float")
            return SymNum(-real(q.p[1].z))
        raise Unsupported("float() of unstructured symbolic text")
    return float(x)


def parse_int(x, *a):
    if isinstance(x, (SymNum, SymBool)):
        return trunc(x) if isinstance(x, SymNum) else SymNum(znum(x))
    if isinstance(x, SymStr):
        q = x.strip()
        if isinstance(q, str):
            return int(q, *a)
        at = q.single()
        if isinstance(at, IntText):
            return SymNum(at.z)
        if isinstance(at, FixText) and at.prec > 0:
            raise ValueError("invalid literal for int()")
        if isinstance(at, NumText):
            if ex().branch(z3.IsInt(real(at.z))) and at.tag == "int":
                return SymNum(z3.ToInt(real(at.z)))
            raise Unsupported("int() of numeric text")
        raise Unsupported("int() of unstructured symbolic text")
    return int(x, *a)


# --------------------------------------------------------------------------- shapes
class Leaf:
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, Leaf) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "Leaf(%s)" % self.kind


class Const:
    """a position that holds the same concrete value everywhere"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


SORTS = {"int": z3.IntSort, "real": z3.RealSort, "str": z3.StringSort, "bool": z3.BoolSort}


def shape_of(v, generalize=True):
    if isinstance(v, SymBool) or isinstance(v, bool):
        return Leaf("bool")
    if isinstance(v, SymNum):
        if v.nan is not None:
            return Leaf("nreal")
        return Leaf("int" if v.isint else "real")
    if isinstance(v, numbers.Integral):
        return Leaf("int")
    if isinstance(v, numbers.Real):
        return Leaf("real")
    if isinstance(v, str):
        return Leaf("str")
    if isinstance(v, SymStr):
        if all(isinstance(x, (str, Opaque)) for x in v.p):
            return Leaf("str")
        raise Unsupported("list element: numeric text")
    if isinstance(v, dict):
        if is_symbolic_container(v):
            raise Unsupported("nested symbolic container")
        return ("dict", tuple((k, shape_of(x)) for k, x in v.items()))
    if isinstance(v, tuple):
        return ("tuple", tuple(shape_of(x) for x in v))
    if isinstance(v, list):
        if is_symbolic_container(v):
            raise Unsupported("nested symbolic container")
        return ("list", tuple(shape_of(x) for x in v))
    if v is None:
        return Const(None)
    raise Unsupported("element of type %s in a symbolic container" % type(v).__name__)


def leaves(shape):
    if isinstance(shape, Leaf):
        return ["real", "bool"] if shape.kind == "nreal" else [shape.kind]
    if isinstance(shape, Const):
        return []
    tag, kids = shape
    out = []
    for k in kids:
        out += leaves(k[1] if tag == "dict" else k)
    return out


def flatten(shape, v):
    if isinstance(shape, Const):
        if v is not shape.v:
            raise Unsupported("shape mismatch")
        return []
    if isinstance(shape, Leaf):
        k = shape.kind
        if k == "bool":
            if not isinstance(v, (bool, SymBool)):
                raise Unsupported("shape mismatch")
            return [core.zbool(v)]
        if k in ("int", "real", "nreal"):
            if not is_num(v):
                raise Unsupported("shape mismatch")
            if k == "int":
                z = znum(v)
                if not z.is_int():
                    raise Unsupported("shape mismatch int/real")
                return [z]
            if k == "real":
                if getattr(v, "nan", None) is not None:
                    raise Unsupported("shape mismatch nan")
                return [real(znum(v))]
            return [real(znum(v)), getattr(v, "nan", None) if getattr(v, "nan", None) is not None else z3.BoolVal(False)]
        if k == "str":
            if isinstance(v, str):
                return [z3.StringVal(v)]
            if isinstance(v, SymStr):
                return [v.zterm()]
            raise Unsupported("shape mismatch")
    tag, kids = shape
    out = []
    if tag == "dict":
        if not isinstance(v, dict) or list(v.keys()) != [k for k, _ in kids]:
            if isinstance(v, dict) and set(v.keys()) == {k for k, _ in kids}:
                pass
            else:
                raise Unsupported("shape mismatch")
        for k, s in kids:
            out += flatten(s, v[k])
        return out
    if not isinstance(v, (list, tuple)) or len(v) != len(kids):
        raise Unsupported("shape mismatch")
    for s, x in zip(kids, v):
        out += flatten(s, x)
    return out


def build(shape, terms):
    it = iter(terms)

    def go(s):
        if isinstance(s, Const):
            return s.v
        if isinstance(s, Leaf):
            t = next(it)
            if s.kind == "bool":
                return SymBool(t)
            if s.kind == "nreal":
                return SymNum(t, next(it))
            if s.kind == "str":
                return SymStr([Opaque(t)])
            return SymNum(t)
        tag, kids = s
        if tag == "dict":
            return VDict((k, go(x)) for k, x in kids)
        if tag == "tuple":
            return tuple(go(x) for x in kids)
        return VList(go(x) for x in kids)
    return go(shape)


def value_eq(a, b):
    """deep equality as a (possibly symbolic) boolean"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if is_symbolic_container(a) or is_symbolic_container(b):
            raise Unsupported("symbolic dict equality")
        if set(a.keys()) != set(b.keys()):
            return False
        return and_(*[value_eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if is_symbolic_container(a) or is_symbolic_container(b):
            raise Unsupported("symbolic list equality")
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return and_(*[value_eq(x, y) for x, y in zip(a, b)])
    return a == b


# --------------------------------------------------------------------------- sequences
class SymSeq(Sym):
    """Immutable sequence of symbolic length n; get(i) gives the element for a z3 Int term i."""
    def __init__(self, n, get, kind="list", name="seq"):
        self.n = n if isinstance(n, z3.ExprRef) else znum(n)
        self.get = get
        self.kind = kind
        self.name = name

    def __bool__(self):
        return ex().branch(self.n > 0)

    def __len__(self):
        v = z3.simplify(self.n)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported("len() of a symbolic sequence outside the model")

    def __iter__(self):
        v = z3.simplify(self.n)
        if z3.is_int_value(v):
            return iter([self.get(z3.IntVal(i)) for i in range(v.as_long())])
        raise Unsupported("iteration over a symbolic sequence outside a cut loop")

    def at(self, i):
        """python indexing with bounds checks"""
        if isinstance(i, slice):
            return self.slice(i)
        e = ex()
        zi = znum(i)
        if not isinstance(i, SymNum):
            if int(i) < 0:
                zi = self.n + zi
                if not e.branch(zi >= 0):
                    raise IndexError("list index out of range")
                return self.get(zi)
            if not e.branch(zi < self.n):
                raise IndexError("list index out of range")
            return self.get(zi)
        if not e.branch(zi < self.n):
            raise IndexError("list index out of range")
        if e.branch(zi >= 0):
            return self.get(zi)
        zi = self.n + zi
        if not e.branch(zi >= 0):
            raise IndexError("list index out of range")
        return self.get(zi)

    def slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice step")
        def norm(v, d):
            if v is None:
                return d
            z = znum(v)
            if isinstance(v, SymNum):
                z = z3.If(z < 0, z3.If(self.n + z < 0, z3.IntVal(0), self.n + z), z)
            elif v < 0:
                z = z3.If(self.n + z < 0, z3.IntVal(0), self.n + z)
            return z3.If(z > self.n, self.n, z)
        lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, self.n)
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return SymSeq(n, lambda i: self.get(lo + i), self.kind)

    def map(self, f):
        return SymSeq(self.n, lambda i: f(self.get(i)), self.kind)

    __getitem__ = at

    def __repr__(self):
        return "SymSeq(%s,%s)" % (self.name, core.zstr(self.n))


def is_symbolic_container(v):
    return isinstance(v, (VList, VDict, VSet)) and v.sym is not None


class _Tracked:
    """heap objects created by the code under verification; in-place mutation inside a cut loop
    of an object that existed before the loop is discovered and havocked."""

    def _touch(self, shape=None):
        e = core.CUR
        if e is None:
            return
        for fr in e.loop_stack:
            if self.aid <= fr.alloc_mark and self.aid not in fr.mods:
                fr.discover(self, shape)


class VList(list, _Tracked):
    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None              # (n z3Int, shape, [z3 arrays])
        e = core.CUR
        if e is not None:
            e.alloc += 1
            self.aid = e.alloc
            e.heap[self.aid] = self
        else:
            self.aid = 0

    # --- symbolic representation
    def set_sym(self, n, shape, arrs):
        list.clear(self)
        self.sym = (n, shape, arrs)

    def elem(self, zi):
        n, shape, arrs = self.sym
        return build(shape, [z3.Select(a, zi) for a in arrs])

    def as_seq(self):
        n, shape, arrs = self.sym
        return SymSeq(n, lambda i: build(shape, [z3.Select(a, i) for a in arrs]))

    def _need_concrete(self, what):
        if self.sym is not None:
            raise Unsupported("%s on a list of symbolic length" % what)

    def append(self, x):
        self._touch(lambda: shape_of(x))
        if self.sym is None:
            return list.append(self, x)
        n, shape, arrs = self.sym
        if shape is None:
            shape = shape_of(x)
            arrs = [z3.K(z3.IntSort(), default_of(k)) for k in leaves(shape)]
        ts = flatten(shape, x)
        self.sym = (n + 1, shape, [z3.Store(a, n, t) for a, t in zip(arrs, ts)])

    def extend(self, xs):
        self._touch()
        if self.sym is None and not isinstance(xs, SymSeq) and not is_symbolic_container(xs):
            return list.extend(self, xs)
        if isinstance(xs, (list, tuple)) and not is_symbolic_container(xs):
            for x in xs:
                self.append(x)
            return
        raise Unsupported("extend with a symbolic sequence")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        self._need_concrete("+")
        if isinstance(o, SymSeq) or is_symbolic_container(o):
            raise Unsupported("list + symbolic list")
        return VList(list.__add__(self, o))

    def __radd__(self, o):
        return VList(list.__add__(list(o), self))

    def insert(self, i, x):
        self._touch()
        self._need_concrete("insert")
        return list.insert(self, i, x)

    def pop(self, *a):
        self._touch()
        self._need_concrete("pop")
        return list.pop(self, *a)

    def remove(self, x):
        self._touch()
        self._need_concrete("remove")
        return list.remove(self, x)

    def clear(self):
        self._touch()
        self._need_concrete("clear")
        return list.clear(self)

    def sort(self, **k):
        self._touch()
        self._need_concrete("sort")
        return list.sort(self, **k)

    def reverse(self):
        self._touch()
        self._need_concrete("reverse")
        return list.reverse(self)

    def __len__(self):
        if self.sym is not None:
            v = z3.simplify(self.sym[0])
            if z3.is_int_value(v):
                return v.as_long()
            raise Unsupported("len() of a symbolic list outside the model")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return ex().branch(self.sym[0] > 0)
        return list.__len__(self) > 0

    def __iter__(self):
        if self.sym is not None:
            return iter(self.as_seq())
        return list.__iter__(self)

    def __getitem__(self, i):
        if self.sym is not None:
            return self.as_seq().at(i)
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, x):
        self._touch()
        if self.sym is None:
            return list.__setitem__(self, i, x)
        n, shape, arrs = self.sym
        zi = znum(i)
        if not isinstance(i, SymNum) and i < 0:
            zi = n + zi
        if not ex().branch(z3.And(zi >= 0, zi < n)):
            raise IndexError("list assignment index out of range")
        ts = flatten(shape, x)
        self.sym = (n, shape, [z3.Store(a, zi, t) for a, t in zip(arrs, ts)])

    def __delitem__(self, i):
        self._touch()
        self._need_concrete("del")
        return list.__delitem__(self, i)

    def __eq__(self, o):
        if self.sym is not None or is_symbolic_container(o):
            raise Unsupported("equality of symbolic lists")
        if not isinstance(o, list):
            return False
        r = value_eq(list(self), list(o))
        return r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = None

    def copy(self):
        r = VList(list.__iter__(self))
        r.sym = self.sym
        return r

    def __contains__(self, x):
        from .models import contains
        return bool(contains(x, self))

    def __deepcopy__(self, memo):
        import copy
        r = VList([copy.deepcopy(x, memo) for x in list.__iter__(self)])
        r.sym = self.sym
        return r

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling")


def default_of(kind):
    return {"int": z3.IntVal(0), "real": z3.RealVal(0), "str": z3.StringVal(""), "bool": z3.BoolVal(False)}[kind]


class VDict(dict, _Tracked):
    """sym mode: (kshape, vshape, dom array, val arrays) -- a map without known iteration order,
    or `order` (n, key(i)) when built as an ordered input map."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.sym = None
        e = core.CUR
        if e is not None:
            e.alloc += 1
            self.aid = e.alloc
            e.heap[self.aid] = self
        else:
            self.aid = 0
        if a:
            src = a[0]
            if is_symbolic_container(src):
                raise Unsupported("dict() of a symbolic map")
            for kk, vv in (src.items() if hasattr(src, "items") else src):
                dict.__setitem__(self, kk, vv) if not isinstance(kk, Sym) else self.__setitem__(kk, vv)
        for kk, vv in k.items():
            dict.__setitem__(self, kk, vv)

    def set_sym(self, m):
        dict.clear(self)
        self.sym = m

    def _nc(self, what):
        if self.sym is not None:
            raise Unsupported("%s on a symbolic map" % what)

    def find(self, k):
        """concrete-mode lookup by (possibly symbolic) key: forks over equal keys. returns stored key or None"""
        if not deep_symbolic(k) and not any(deep_symbolic(kk) for kk in dict.keys(self)):
            return k if dict.__contains__(self, k) else None
        for kk in list(dict.keys(self)):
            if bool(value_eq(kk, k)):
                return kk
        return None

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym.getitem(k)
        kk = self.find(k)
        if kk is None:
            raise KeyError("symbolic key" if deep_symbolic(k) else k)
        return self._raw(kk)

    def _raw(self, kk):
        with hashing():
            return dict.__getitem__(self, kk)

    def __missing__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        self._touch(lambda: (shape_of(k), shape_of(v)))
        if self.sym is not None:
            self.sym = self.sym.setitem(k, v)
            return
        if deep_symbolic(k) or any(deep_symbolic(x) for x in dict.keys(self)):
            kk = self.find(k)
            if kk is not None:
                k = kk
            with hashing():
                dict.__setitem__(self, k, v)
            return
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._touch()
        self._nc("del")
        kk = self.find(k)
        if kk is None:
            raise KeyError(k)
        dict.__delitem__(self, kk)

    def __contains__(self, k):
        if self.sym is not None:
            return bool(self.sym.contains(k))
        return self.find(k) is not None

    def get(self, k, d=None):
        if self.sym is not None:
            if bool(self.sym.contains(k)):
                return self.sym.getitem(k)
            return d
        kk = self.find(k)
        return d if kk is None else self._raw(kk)

    def setdefault(self, k, d=None):
        if self.sym is not None:
            if bool(self.sym.contains(k)):
                return self.sym.getitem(k)
            self[k] = d
            return d
        kk = self.find(k)
        if kk is None:
            self[k] = d
            return d
        return self._raw(kk)

    def update(self, *a, **k):
        self._touch()
        self._nc("update")
        for o in a:
            if is_symbolic_container(o):
                raise Unsupported("update from symbolic map")
            for kk, vv in (o.items() if hasattr(o, "items") else o):
                self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def pop(self, k, *d):
        self._touch()
        self._nc("pop")
        kk = self.find(k)
        if kk is None:
            if d:
                return d[0]
            raise KeyError(k)
        with hashing():
            return dict.pop(self, kk)

    def keys(self):
        if self.sym is not None:
            return self.sym.keys()
        return dict.keys(self)

    def values(self):
        if self.sym is not None:
            return self.sym.values()
        return dict.values(self)

    def items(self):
        if self.sym is not None:
            return self.sym.items()
        return dict.items(self)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym.keys())
        return dict.__iter__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("len() of a symbolic map outside the model")
        return dict.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym.nonempty())
        return dict.__len__(self) > 0

    def __eq__(self, o):
        if self.sym is not None or is_symbolic_container(o):
            raise Unsupported("equality of symbolic maps")
        return value_eq(dict(dict.items(self)), o) if isinstance(o, dict) else False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = None

    def copy(self):
        r = VDict()
        with hashing():
            for kk in dict.keys(self):
                dict.__setitem__(r, kk, dict.__getitem__(self, kk))
        r.sym = self.sym
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = VDict()
        for kk in dict.keys(self):
            v = copy.deepcopy(self._raw(kk), memo)
            with hashing():
                dict.__setitem__(r, kk, v)
        r.sym = self.sym
        return r

    def __reduce__(self):
        raise Unsupported("pickling")


def _keyerr(k):
    raise KeyError("symbolic key")


class VSet(set, _Tracked):
    def __init__(self, *a):
        set.__init__(self, *a)
        self.sym = None
        e = core.CUR
        if e is not None:
            e.alloc += 1
            self.aid = e.alloc
            e.heap[self.aid] = self
        else:
            self.aid = 0

    def add(self, x):
        self._touch()
        if self.sym is not None:
            self.sym = self.sym.add(x)
            return
        if deep_symbolic(x) or any(deep_symbolic(y) for y in self):
            for y in set.__iter__(self):
                if bool(value_eq(x, y)):
                    return
            with hashing():
                set.add(self, x)
            return
        set.add(self, x)

    def __deepcopy__(self, memo):
        r = VSet(set.__iter__(self))
        r.sym = self.sym
        return r


class SymMap:
    """z3-array map used by VDict in symbolic mode: kshape/vshape with dom: K->Bool."""

    def __init__(self, kshape, vshape, dom, vals, order=None):
        self.kshape, self.vshape, self.dom, self.vals = kshape, vshape, dom, vals
        self.order = order          # (n, keyfn(i) -> python key) when iteration is meaningful

    def k(self, key):
        return flatten(self.kshape, key)

    def contains(self, key):
        try:
            ks = self.k(key)
        except Unsupported:
            raise
        return SymBool(z3.Select(self.dom, *ks))

    def raw(self, key):
        ks = self.k(key)
        return build(self.vshape, [z3.Select(v, *ks) for v in self.vals])

    def getitem(self, key):
        if not bool(self.contains(key)):
            raise KeyError("symbolic key")
        return self.raw(key)

    def setitem(self, key, v):
        ks = self.k(key)
        vs = flatten(self.vshape, v)
        return SymMap(self.kshape, self.vshape, z3.Store(self.dom, *ks, z3.BoolVal(True)),
                      [z3.Store(a, *ks, t) for a, t in zip(self.vals, vs)], None)

    def _ord(self):
        if self.order is None:
            raise Unsupported("iteration over a symbolic map without order")
        return self.order

    def keys(self):
        n, kf = self._ord()
        return SymSeq(n, kf)

    def items(self):
        n, kf = self._ord()
        return SymSeq(n, lambda i: (kf(i), self.raw(kf(i))))

    def values(self):
        n, kf = self._ord()
        return SymSeq(n, lambda i: self.raw(kf(i)))

    def nonempty(self):
        n, _ = self._ord()
        return SymBool(n > 0)


_ATOMIC = (int, float, str, bytes, bool, type(None), complex)


def deep_symbolic(v, depth=6, seen=None):
    if isinstance(v, _ATOMIC):
        return False
    if isinstance(v, Sym) or is_symbolic_container(v):
        return True
    if getattr(v, "__vc_symbolic__", False):
        return True
    if depth == 0:
        return False
    if seen is None:
        seen = set()
    if isinstance(v, dict):
        if id(v) in seen:
            return False
        seen.add(id(v))
        return any(deep_symbolic(k, depth - 1, seen) or deep_symbolic(x, depth - 1, seen)
                   for k, x in dict.items(v))
    if isinstance(v, (list, tuple, set, frozenset)):
        if id(v) in seen:
            return False
        seen.add(id(v))
        it = list.__iter__(v) if isinstance(v, list) else iter(v) if not isinstance(v, set) else set.__iter__(v) if isinstance(v, set) else iter(v)
        return any(deep_symbolic(x, depth - 1, seen) for x in it)
    return False
