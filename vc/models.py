"""Operations reached from instrumented code (module object `_vc_`), builtin models and
assumed contracts on library functions."""
import builtins
import copy as _copy
import json as _json
import numbers
import operator
import re as _re
import types
from collections import OrderedDict
import z3
from . import core, values
from .core import ex, Unsupported, PathEnd, Restart
from .values import *
from .values import _un
from . import loops
from .instrument import INSTRUMENTED

OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "Mod": None,
       "FloorDiv": operator.floordiv, "Pow": operator.pow, "BitOr": operator.or_, "BitAnd": operator.and_,
       "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift, "MatMult": operator.matmul}
IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv}

MODELS = {}            # id(function) -> model (for hashable identity)
_KEEP = []
METHOD_MODELS = {}     # (type, name) -> model(obj, *a, **k)
TRANSPARENT = set()    # ids of library callables that handle symbolic values structurally
CONTRACTS = {}         # "module:qualname" -> Contract
ACTIVE = set()         # contracts active as stubs in the current harness


def model(f):
    def deco(m):
        MODELS[id(f)] = m
        _KEEP.append(f)
        return m
    return deco


def transparent(*fs):
    for f in fs:
        TRANSPARENT.add(id(f))
        _KEEP.append(f)


def active():
    return core.CUR is not None


def fkey(f):
    f = getattr(f, "__func__", f)
    m, q = getattr(f, "__module__", None), getattr(f, "__qualname__", None)
    return "%s:%s" % (m, q) if m and q else None


def note_fn(f):
    k = fkey(f)
    if k:
        d = core.CUR.functions_entered
        d[k] = d.get(k, 0) + 1


def pandas_cells_column(fr, v):
    """a scalar fills the column"""
    if callable(v) and not isinstance(v, Sym):
        raise Unsupported("assign of a function")
    if not isinstance(v, Sym):
        return v
    import numpy as np
    import pandas as pd
    a = np.empty(len(fr), dtype=object)
    for i in range(len(fr)):
        a[i] = v
    return pd.Series(a, index=fr.index)


def pandas_cells(f, d, **k):
    """a real pandas frame whose cells (a concrete number of them) may be symbolic: pandas only carries them"""
    if not isinstance(d, dict) or getattr(d, "sym", None) is not None:
        raise Unsupported("DataFrame of symbolic data")
    import pandas as pd
    out = {}
    for c, v in dict.items(d):
        if isinstance(v, (list, tuple)) and getattr(v, "sym", None) is None:
            v = [x for x in list.__iter__(v)] if isinstance(v, list) else list(v)
            out[c] = pd.Series(v, dtype=object) if deep_symbolic((v,)) else v
        elif isinstance(v, pd.Series) or type(v).__name__ == "ndarray" and v.ndim == 1:
            out[c] = v
        else:
            raise Unsupported("DataFrame of symbolic data")
    if "index" in k:        # values in order for the given labels
        if any(isinstance(v, pd.Series) and id(v) == id(d[c]) for c, v in out.items()):
            raise Unsupported("DataFrame of series with an index")
        out = {c: v.values if isinstance(v, pd.Series) else v for c, v in out.items()}
    return f(out, **k)


def call(f, *a, **k):
    e = core.CUR
    if e is None:
        return f(*a, **k)
    m = MODELS.get(id(f))
    if m is not None:
        return m(*a, **k)
    if isinstance(f, (types.FunctionType, types.MethodType)):
        fn = getattr(f, "__func__", f)
        if fn.__module__ in INSTRUMENTED:
            key = "%s:%s" % (fn.__module__, fn.__qualname__)
            c = CONTRACTS.get(key)
            if c is not None and key in ACTIVE:
                self_ = getattr(f, "__self__", None)
                e.contracts_used[key] = e.contracts_used.get(key, 0) + 1
                return c.stub(e, *( (self_,) if self_ is not None else ()), *a, **k)
            e.functions_entered[key] = e.functions_entered.get(key, 0) + 1
            return f(*a, **k)
        if fn.__module__ and (fn.__module__.startswith("vc.") or fn.__module__.startswith("props")):
            return f(*a, **k)
    if isinstance(f, type):
        if f.__module__ in INSTRUMENTED or issubclass(f, BaseException) or f.__module__.startswith("props"):
            if f.__module__ in INSTRUMENTED:
                key = "%s:%s" % (f.__module__, f.__qualname__)
                e.functions_entered[key] = e.functions_entered.get(key, 0) + 1
            return f(*a, **k)
        for t, mm in TYPE_MODELS:
            if f is t:
                return mm(*a, **k)
    self_ = getattr(f, "__self__", None)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        if isinstance(self_, Sym) or getattr(self_, "__vc_symbolic__", False):
            return f(*a, **k)
        if isinstance(self_, (list, dict, set, str, tuple)):
            return callm(self_, f.__name__, *a, **k)
        if type(self_).__module__.startswith("vc."):
            return f(*a, **k)
    if id(f) in TRANSPARENT:
        return f(*a, **k)
    if getattr(f, "__vc_symbolic__", False):
        return f(*a, **k)
    if isinstance(f, types.MethodDescriptorType) and f.__objclass__ in (list, dict, set, str) and a and isinstance(a[0], f.__objclass__):
        return callm(a[0], f.__name__, *a[1:], **k)
    if deep_symbolic(a) or deep_symbolic(k):
        if getattr(f, "__qualname__", "") == "DataFrame" and f.__module__.startswith("pandas.") and len(a) == 1 and set(k) <= {"index"} and not deep_symbolic(k):
            return pandas_cells(f, a[0], **k)
        if self_ is not None and isinstance(self_, type) and self_.__module__ in INSTRUMENTED:
            return f(*a, **k)
        if f.__name__ == "assign" and type(self_).__module__.startswith("pandas.") and not a:
            r = self_.copy()
            for c, v in k.items():       # documented: each keyword becomes a column of the copy, in order
                r[c] = pandas_cells_column(r, v)
            return r
        if getattr(f, "__module__", "") in ("functools",) and hasattr(f, "func"):
            return call(f.func, *f.args, *a, **{**f.keywords, **k})
        if isinstance(self_, __import__("logging").Logger):
            return None
        raise Unsupported("call of %s with symbolic arguments" % (getattr(f, "__qualname__", None) or repr(f)))
    r = f(*a, **k)
    return _reg(r)


def _reg(r):
    e = core.CUR
    if e is not None and type(r) in (dict, OrderedDict, list, set):
        e.alloc += 1
        e.memo[("plain", id(r))] = (e.alloc, r)
    return r


def _plain_mut(o):
    """in-place mutation of a native container inside a cut loop: must have been created in this iteration"""
    e = core.CUR
    if e is None or not e.loop_stack or isinstance(o, (VList, VDict, VSet)):
        return
    if isinstance(o, (list, dict, set)):
        st = e.memo.get(("plain", id(o)))
        if st is None or st[0] <= e.loop_stack[-1].alloc_mark:
            raise Unsupported("mutation of a pre-existing native container inside a symbolic loop")


_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "add",
        "discard", "popitem"}


def callm(o, name, *a, **k):
    e = core.CUR
    if e is None:
        return getattr(o, name)(*a, **k)
    for t in type(o).__mro__:
        mm = METHOD_MODELS.get((t, name))
        if mm is not None:
            return mm(o, *a, **k)
    if isinstance(o, (VList, VDict, VSet)):
        if isinstance(o, VSet) and o.sym is not None:
            return getattr(o.sym, "m_" + name)(*a, **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, Sym) or getattr(o, "__vc_symbolic__", False):
        f = getattr(o, name)
        return f(*a, **k)
    if isinstance(o, (list, dict, set)) and name in _MUT:
        _plain_mut(o)
    if isinstance(o, str) and (deep_symbolic(a) or deep_symbolic(k)):
        if name == "format":
            return format_(o, *a, **k)
        if name == "join":
            return join(o, *a)
        if name in ("startswith", "endswith"):
            raise Unsupported("str.%s with symbolic argument" % name)
        raise Unsupported("str.%s with symbolic argument" % name)
    if isinstance(o, str):
        return _reg(getattr(o, name)(*a, **k))
    if isinstance(o, dict) and name in ("get", "pop", "setdefault", "__getitem__") and (
            deep_symbolic(a[:1]) or any(isinstance(x, Sym) for x in dict.keys(o))):
        for kk in list(dict.keys(o)):
            if bool(value_eq(kk, a[0])):
                return getattr(o, name)(kk, *a[1:])
        if name == "get":
            return a[1] if len(a) > 1 else k.get("default")
        if name == "pop" and len(a) > 1:
            return a[1]
        raise Unsupported("dict.%s with a symbolic key" % name) if name == "setdefault" else KeyError("symbolic key")
    if isinstance(o, (list, dict, tuple, set, frozenset)):
        if name in ("index", "count", "remove") and deep_symbolic((o, a)):
            if name == "index":
                for i, x in enumerate(o):
                    if bool(value_eq(x, a[0])):
                        return i
                raise ValueError("not in list")
            raise Unsupported("%s with symbolic values" % name)
        return _reg(getattr(o, name)(*a, **k))
    f = getattr(o, name)
    return call(f, *a, **k)


# ---------------------------------------------------------------- operators
def getitem(o, i):
    if core.CUR is None:
        return o[i]
    if isinstance(o, (VList, SymSeq)):
        if isinstance(o, VList) and o.sym is None and isinstance(i, SymNum):
            return _pick(o, i)
        return o[i]
    if isinstance(o, VDict) or isinstance(o, Sym) or getattr(o, "__vc_symbolic__", False):
        return o[i]
    if isinstance(o, dict) and (deep_symbolic(i) or any(deep_symbolic(x) for x in dict.keys(o))):
        for kk in list(dict.keys(o)):
            if bool(value_eq(kk, i)):
                with hashing():
                    return o[kk]
        raise KeyError("symbolic key")
    if isinstance(o, (list, tuple)) and isinstance(i, SymNum):
        return _pick(o, i)
    if isinstance(o, SymStr):
        if isinstance(i, slice):
            return values.rope_slice(o, i)
        raise Unsupported("indexing symbolic text")
    return o[i]


def _pick(o, i):
    n = len(o)
    for j in range(n):
        if bool(or_(i == j, i == j - n)):
            return o[j]
    raise IndexError("list index out of range")


def setitem(o, i, v):
    if core.CUR is None:
        o[i] = v
        return
    if isinstance(o, (list, dict)):
        _plain_mut(o)
    if isinstance(o, list) and isinstance(i, SymNum) and not is_symbolic_container(o):
        n = len(o)
        for j in range(n):
            if bool(or_(i == j, i == j - n)):
                o[j] = v
                return
        raise IndexError("list assignment index out of range")
    if isinstance(o, dict) and not isinstance(o, VDict) and (
            deep_symbolic(i) or any(isinstance(x, Sym) for x in dict.keys(o))):
        for kk in list(dict.keys(o)):
            if bool(value_eq(kk, i)):
                with hashing():
                    o[kk] = v
                return
        with hashing():
            o[i] = v
        return
    o[i] = v


def augitem(o, i, op, v):
    old = getitem(o, i)
    new = mod(old, v) if op == "Mod" else IOPS.get(op, OPS[op])(old, v)
    setitem(o, i, new)


def setattr_(o, name, v):
    e = core.CUR
    if e is not None and e.loop_stack and not isinstance(o, type):
        st = e.memo.get(("obj", id(o)))
        if st is None or st[0] <= e.loop_stack[-1].alloc_mark:
            # objects created in this iteration are registered by their constructor's first setattr
            if getattr(o, "__dict__", None) is None or len(o.__dict__) > 0 and ("obj", id(o)) not in e.memo:
                raise Unsupported("attribute store on a pre-existing object inside a symbolic loop")
    if e is not None and hasattr(o, "__dict__") and ("obj", id(o)) not in e.memo and len(o.__dict__) == 0:
        e.alloc += 1
        e.memo[("obj", id(o))] = (e.alloc, o)
    setattr(o, name, v)


def mod(a, b):
    if core.CUR is not None:
        if isinstance(a, str) and deep_symbolic(b):
            return percent(a, b)
        if isinstance(a, SymStr):
            raise Unsupported("% on symbolic text")
    return a % b


def contains(x, c):
    if core.CUR is None:
        return x in c
    if isinstance(c, (str, SymStr)):
        if isinstance(x, (str, SymStr)):
            return str_contains(c, x)
        raise TypeError("'in <string>' requires string as left operand")
    if isinstance(c, VDict) and c.sym is not None:
        return c.sym.contains(x)
    if isinstance(c, VSet) and c.sym is not None:
        return c.sym.contains(x)
    if getattr(c, "__vc_symbolic__", False):
        return c.contains(x)
    if isinstance(c, SymSeq) or (isinstance(c, VList) and c.sym is not None):
        s = c if isinstance(c, SymSeq) else c.as_seq()
        return seq_contains(s, x)
    if isinstance(c, (list, tuple, set, frozenset, dict, type({}.keys()), type({}.values()))):
        items = list(set.__iter__(c)) if isinstance(c, set) else list(list.__iter__(c)) if isinstance(c, list) else list(c)
        if deep_symbolic(x) or any(deep_symbolic(y) for y in items):
            return or_(*[value_eq(x, y) for y in items]) if items else False
        if isinstance(c, list):
            return list.__contains__(c, x)
        if isinstance(c, set):
            return set.__contains__(c, x)
        if isinstance(c, dict):
            return dict.__contains__(c, x)
        return x in c
    if getattr(c, "_vc_model", False):
        return c.__contains__(x)
    if isinstance(x, Sym):
        raise Unsupported("membership of a symbolic value in %s" % type(c).__name__)
    return x in c


def not_contains(x, c):
    if core.CUR is None:
        return x not in c
    return not_(contains(x, c))


def seq_contains(s, x):
    j = ex().bvar("jc")
    body = core.zbool(value_eq(s.get(j), x))
    return SymBool(z3.Exists([j], z3.And(j >= 0, j < s.n, body)))


def mklist(l):
    return l if core.CUR is None else VList(l)


def mkdict(*items):
    if core.CUR is None:
        d = {}
        for it in items:
            if len(it) == 1:
                d.update(it[0])
            else:
                d[it[0]] = it[1]
        return d
    d = VDict()
    d.aid = core.CUR.alloc
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*xs):
    if core.CUR is None:
        return set(xs)
    s = VSet()
    for x in xs:
        s.add(x)
    return s


def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if core.CUR is None:
            v = str(v) if conv == 115 else repr(v) if conv == 114 else ascii(v) if conv == 97 else v
            out.append(format(v, spec))
            continue
        if conv == 114:
            v = repr(v) if not deep_symbolic(v) else "<symbolic>"
        elif conv == 115:
            v = to_text(v) if not deep_symbolic(v) or isinstance(v, Sym) else "<symbolic>"
        out.append(fmt(v, spec))
    if core.CUR is None:
        return "".join(out)
    return SymStr.make(out)


def format_(template, *a, **k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(template):
        out.append(lit)
        if field is None:
            continue
        name = field.split(".")[0].split("[")[0]
        if name != field:
            raise Unsupported("format field access")
        if name == "":
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        if conv == "r":
            v = repr(v)
        out.append(fmt(v, spec))
    return SymStr.make(out)


def percent(t, args):
    import re
    args = args if isinstance(args, tuple) else (args,)
    out, pos, i = [], 0, 0
    for m in re.finditer(r"%(%|[sd]|i|[0-9]*\.[0-9]+f|0[0-9]+d|f)", t):
        out.append(t[pos:m.start()])
        pos = m.end()
        s = m.group(1)
        if s == "%":
            out.append("%")
            continue
        v = args[i]
        i += 1
        if s == "s":
            out.append(to_text(v))
        elif s in ("d", "i"):
            out.append(to_text(trunc(v) if is_num(v) else v))
        elif s == "f":
            out.append(fmt(v, ".6f"))
        elif s.endswith("f"):
            out.append(fmt(v, s))
        else:
            out.append(fmt(v, s))
    rest = t[pos:]
    if "%" in rest:
        raise Unsupported("%% format %r" % t)
    out.append(rest)
    return SymStr.make(out)


def join(sep, xs):
    if isinstance(xs, SymSeq) or is_symbolic_container(xs):
        raise Unsupported("join over a symbolic sequence")
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return SymStr.make(out)


def comp(kind, it, f, conds):
    if core.CUR is not None:
        s = as_seq(it)
        if s is not None:
            return sym_comp(kind, s, f, conds)
        if getattr(it, "__vc_symbolic__", False) and hasattr(it, "comp"):
            return it.comp(kind, f, conds)
    if kind == "gen":
        return (f(x) for x in it if all(c(x) for c in conds))
    if kind == "list":
        r = [f(x) for x in it if all(c(x) for c in conds)]
        return r if core.CUR is None else VList(r)
    if kind == "set":
        if core.CUR is None:
            return {f(x) for x in it if all(c(x) for c in conds)}
        return mkset(*[f(x) for x in it if all(c(x) for c in conds)])
    pairs = [f(x) for x in it if all(c(x) for c in conds)]
    return mkdict(*pairs) if core.CUR is not None else dict(pairs)


def as_seq(it):
    """SymSeq view of an iterable when it is of symbolic length, else None"""
    if isinstance(it, SymSeq):
        n = z3.simplify(it.n)
        return None if z3.is_int_value(n) else it
    if isinstance(it, VList) and it.sym is not None:
        return it.as_seq()
    if isinstance(it, VDict) and it.sym is not None:
        return it.sym.keys()
    if getattr(it, "__vc_symbolic__", False) and hasattr(it, "as_seq"):
        return it.as_seq()
    return None


class SymComp(SymSeq):
    """lazy symbolic comprehension (element-wise map); elements must not fork"""


def sym_comp(kind, s, f, conds):
    if conds:
        if kind in ("gen", "list"):
            return FilteredSeq(s, f, conds)
        raise Unsupported("filtered comprehension over a symbolic sequence")
    if kind in ("list", "gen"):
        return SymSeq(s.n, lambda i: f(s.get(i)), "list")
    raise Unsupported("%s comprehension over a symbolic sequence" % kind)


class FilteredSeq(Sym):
    __vc_symbolic__ = True

    def __init__(self, s, f, conds):
        self.s, self.f, self.conds = s, f, conds


def iter_(it):
    return it


def is_cut(it):
    if core.CUR is None:
        return False
    return as_seq(it) is not None


def cut_begin(lid, it, loc, mods, targets, has_else):
    if has_else:
        raise Unsupported("for/else over a symbolic sequence")
    return loops.Frame(lid, as_seq(it), loc, mods, targets)


# ---------------------------------------------------------------- builtin models
@model(len)
def _len(x):
    if isinstance(x, SymSeq):
        return _simpl(x.n)
    if isinstance(x, VList) and x.sym is not None:
        return _simpl(x.sym[0])
    if isinstance(x, VDict) and x.sym is not None:
        return SymNum(x.sym._ord()[0])
    if getattr(x, "__vc_symbolic__", False) and hasattr(x, "sym_len"):
        return x.sym_len()
    if isinstance(x, SymStr):
        if values.rope_len(x) is not None:
            return values.rope_len(x)
        if all(isinstance(p, (str, Opaque)) for p in x.p):
            return SymNum(z3.Length(x.zterm()))
        e = ex()
        n = z3.Int(e.fresh("strlen"))
        e.assume(n >= sum(len(p) if isinstance(p, str) else 1 for p in x.p))
        return SymNum(n)
    return len(x)


def _simpl(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SymNum(z)


@model(isinstance)
def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, Sym):
        if getattr(x, "pytypes", None):
            return any(p in ts for p in x.pytypes)
        if isinstance(x, SymBool):
            return any(q in (bool, int, object) or q is numbers.Number for q in ts)
        if isinstance(x, SymNum):
            if x.isint:
                return any(q in (int, object) or (isinstance(q, type) and issubclass(int, q)) for q in ts)
            return any(q in (float, object) or (isinstance(q, type) and issubclass(float, q)) for q in ts)
        if isinstance(x, SymStr):
            return any(q in (str, object) or (isinstance(q, type) and issubclass(str, q)) for q in ts)
        if isinstance(x, SymSeq):
            return any(q in (list if x.kind == "list" else tuple, object) for q in ts)
        if isinstance(x, loops.Poison):
            x._bad()
    return isinstance(x, t)


@model(type)
def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymNum):
        return int if x.isint else float
    if isinstance(x, SymStr):
        return str
    if isinstance(x, VList) or isinstance(x, SymSeq):
        return list
    if isinstance(x, VDict):
        return dict
    if isinstance(x, VSet):
        return set
    return type(x)


@model(_re.split)
def _re_split(pattern, string, maxsplit=0, flags=0):
    if isinstance(string, SymStr):
        if maxsplit or flags or not isinstance(pattern, str):
            raise Unsupported("re.split variant on symbolic text")
        return values.re_split(pattern, string)
    return _re.split(pattern, string, maxsplit=maxsplit, flags=flags)


@model(print)
def _print(*a, **k):
    return None


@model(repr)
def _repr(x):
    return "<symbolic>" if deep_symbolic(x) else repr(x)


@model(abs)
def _abs(x):
    return abs(x)


@model(round)
def _round(x, nd=None):
    if isinstance(x, SymNum):
        return sym_round(x, nd)
    return round(x, nd) if nd is not None else round(x)


@model(divmod)
def _divmod(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return (a // b, a % b)
    return divmod(a, b)


import time as _time      # noqa


class SymTime(Sym):
    """time.gmtime of a symbolic number of seconds (only the time of day)"""
    def __init__(self, secs):
        self.secs = secs

    @property
    def tm_hour(self):
        return self.secs // 3600 % 24

    @property
    def tm_min(self):
        return self.secs // 60 % 60

    @property
    def tm_sec(self):
        return self.secs % 60


@model(_time.gmtime)
def _gmtime(x=None):
    if isinstance(x, SymNum):
        return SymTime(trunc(x))
    return _time.gmtime(x) if x is not None else _time.gmtime()


@model(_time.strftime)
def _strftime(f, t=None):
    if not isinstance(t, SymTime):
        return _time.strftime(f, t) if t is not None else _time.strftime(f)
    out = ""
    i = 0
    while i < len(f):
        if f[i] == "%":
            part = {"H": t.tm_hour, "M": t.tm_min, "S": t.tm_sec}.get(f[i + 1])
            if part is None:
                raise Unsupported("strftime %r of a symbolic time" % f)
            out = out + fmt(part, "02d")
            i += 2
        else:
            out = out + f[i]
            i += 1
    return out


@model(any)
def _any(xs):
    s = as_seq(xs)
    if s is not None:
        j = ex().bvar("ja")
        return SymBool(z3.Exists([j], z3.And(j >= 0, j < s.n, core.zbool(_truthy(s.get(j))))))
    if isinstance(xs, FilteredSeq):
        s = xs.s
        j = ex().bvar("ja")
        el = s.get(j)
        return SymBool(z3.Exists([j], z3.And(j >= 0, j < s.n, *[core.zbool(_truthy(c(el))) for c in xs.conds],
                                             core.zbool(_truthy(xs.f(el))))))
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return or_(*[_truthy(x) for x in xs])
    return any(xs)


@model(all)
def _all(xs):
    s = as_seq(xs)
    if s is not None:
        j = ex().bvar("ja")
        return SymBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), core.zbool(_truthy(s.get(j))))))
    xs = list(xs)
    if any(isinstance(x, SymBool) for x in xs):
        return and_(*[_truthy(x) for x in xs])
    return all(xs)


def _truthy(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return SymBool(x.z != 0) if x.nan is None else SymBool(z3.Or(x.nan, x.z != 0))
    return bool(x)


@model(max)
def _max(*a, **k):
    return _minmax(max, True, a, k)


@model(min)
def _min(*a, **k):
    return _minmax(min, False, a, k)


def _minmax(f, up, a, k):
    if len(a) == 1:
        s = as_seq(a[0])
        if s is not None:
            if k:
                raise Unsupported("min/max with key over a symbolic sequence")
            return seq_extreme(s, up)
        if getattr(a[0], "__vc_symbolic__", False):
            return getattr(a[0], "max" if up else "min")()
        xs = list(a[0])
    else:
        xs = list(a)
    if "key" in k or not any(isinstance(x, SymNum) for x in xs):
        return f(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        c = (x > r) if up else (x < r)
        if isinstance(c, SymBool):
            za, zb = znum(x), znum(r)
            if za.is_int() != zb.is_int():
                za, zb = real(za), real(zb)
            r = SymNum(z3.If(c.z, za, zb))
        elif c:
            r = x
    return r


def seq_extreme(s, up):
    e = ex()
    if not e.branch(s.n > 0):
        raise ValueError("max()/min() of an empty sequence")
    w = z3.Int(e.fresh("arg"))
    e.assume(z3.And(w >= 0, w < s.n))
    v = s.get(w)
    j = e.bvar("jm")
    o = s.get(j)
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), (real(o.z) <= real(v.z)) if up else (real(o.z) >= real(v.z)))))
    return v


@model(sum)
def _sum(xs, start=0):
    s = as_seq(xs)
    if s is not None:
        raise Unsupported("sum over a symbolic sequence")
    r = start
    for x in xs:
        r = r + x
    return r


@model(sorted)
def _sorted(xs, **k):
    if as_seq(xs) is not None:
        raise Unsupported("sorted over a symbolic sequence")
    return VList(sorted(xs, **k))


@model(reversed)
def _reversed(xs):
    s = as_seq(xs)
    if s is not None:
        return SymSeq(s.n, lambda i: s.get(s.n - 1 - i))
    return reversed(xs)


@model(getattr)
def _getattr(o, n, *d):
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    return getattr(o, n, *d)


@model(hasattr)
def _hasattr(o, n):
    return hasattr(o, n)


@model(setattr)
def _setattr(o, n, v):
    setattr_(o, n, v)


@model(id)
def _id(o):
    return id(o)


@model(callable)
def _callable(o):
    return callable(o)


@model(bool)
def _boolf(x=False):
    return x if isinstance(x, SymBool) else _truthy(x) if isinstance(x, SymNum) else bool(x)


@model(iter)
def _iterf(x):
    return iter(x)


@model(next)
def _next(it, *d):
    return next(it, *d)


@model(open)
def _open(path, mode="r", *a, **k):
    e = ex()
    if "w" in mode:
        f = VFile(path, mode)
        e.vfs[_pathkey(path)] = f
        return f
    key = _pathkey(path)
    if key in e.vfs:
        return VFile(path, mode, e.vfs[key].content())
    if isinstance(path, SymStr):
        raise Unsupported("open of a symbolic path")
    return open(path, mode, *a, **k)


def _pathkey(p):
    if isinstance(p, SymStr):
        return tuple(x if isinstance(x, str) else id(x) for x in p.p)
    return p


class VFile:
    """in-memory file: what is written is what is read back (assumed contract on the filesystem)"""
    __vc_symbolic__ = True

    def __init__(self, path, mode, data=None):
        self.path, self.mode, self.data, self.out = path, mode, data, []

    def content(self):
        if len(self.out) == 1:
            return self.out[0]
        return SymStr.make(self.out)

    def write(self, s):
        self.out.append(s)

    def read(self):
        return self.data

    def readline(self):
        if not isinstance(self.data, str):
            raise Unsupported("readline of symbolic text")
        i = self.data.find("\n") + 1 or len(self.data)
        r, self.data = self.data[:i], self.data[i:]
        return r

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _t_int(*a):
    return parse_int(*a) if a else 0


def _t_float(*a):
    return parse_float(*a) if a else 0.0


def _t_str(*a, **k):
    if len(a) == 1 and not k:
        if deep_symbolic(a[0]) and not isinstance(a[0], Sym):
            return "<symbolic>"
        return to_text(a[0])
    return str(*a, **k)


def _t_list(*a):
    if not a:
        return VList()
    s = as_seq(a[0])
    if s is not None:
        return SymSeq(s.n, s.get, "list")
    if getattr(a[0], "__vc_symbolic__", False):
        return a[0].to_list()
    return VList(a[0])


def _t_tuple(*a):
    if a and as_seq(a[0]) is not None:
        s = as_seq(a[0])
        return SymSeq(s.n, s.get, "tuple")
    return tuple(*a)


def _t_dict(*a, **k):
    if a and isinstance(a[0], VDict):
        r = a[0].copy()
        r.update(**k)
        return r
    return VDict(*a, **k)


def _t_set(*a):
    if not a:
        return VSet()
    if as_seq(a[0]) is not None or getattr(a[0], "__vc_symbolic__", False):
        raise Unsupported("set() of a symbolic sequence")
    return mkset(*list(a[0]))


def _t_frozenset(*a):
    if a and (as_seq(a[0]) is not None or getattr(a[0], "__vc_symbolic__", False)):
        raise Unsupported("frozenset() of a symbolic sequence")
    if a and any(deep_symbolic(x) for x in a[0]):
        return mkset(*list(a[0]))
    return frozenset(*a)


@model(frozenset.union)
def _fs_union(*sets):
    if not any(isinstance(s, VSet) or deep_symbolic(list(s)) for s in sets):
        return frozenset.union(*sets)
    return mkset(*[x for s in sets for x in s])


def _t_enumerate(xs, start=0):
    s = as_seq(xs)
    if s is not None:
        return SymSeq(s.n, lambda i: (SymNum(z3.simplify(i + start)), s.get(i)))
    return enumerate(xs, start)


def _t_zip(*xs, **k):
    ss = [as_seq(x) for x in xs]
    if any(s is not None for s in ss):
        if any(s is None for s in ss):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = ss[0].n
        for s in ss[1:]:
            if not ex().entails(s.n == n):
                n = z3.If(s.n < n, s.n, n)
        return SymSeq(n, lambda i: tuple(s.get(i) for s in ss))
    return zip(*xs, **k)


def _t_range(*a):
    if any(isinstance(x, SymNum) for x in a):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3 and a[2] != 1:
            raise Unsupported("range step")
        zl, zh = znum(lo), znum(hi)
        n = z3.simplify(z3.If(zh > zl, zh - zl, z3.IntVal(0)))
        if z3.is_int_value(n) and z3.is_int_value(z3.simplify(zl)):
            return range(z3.simplify(zl).as_long(), z3.simplify(zl).as_long() + n.as_long())
        return SymSeq(n, lambda i: SymNum(z3.simplify(zl + i)))
    return range(*a)


def _t_map(f, *xs):
    if len(xs) == 1:
        s = as_seq(xs[0])
        if s is not None:
            return SymSeq(s.n, lambda i: call(f, s.get(i)))
        return (call(f, x) for x in xs[0])
    return map(lambda *t: call(f, *t), *xs)


def _t_ordereddict(*a, **k):
    if deep_symbolic(a) or deep_symbolic(k):
        return _t_dict(*a, **k)
    return _reg(OrderedDict(*a, **k))


TYPE_MODELS = [(int, _t_int), (float, _t_float), (str, _t_str), (list, _t_list), (tuple, _t_tuple), (dict, _t_dict),
               (set, _t_set), (frozenset, _t_frozenset), (enumerate, _t_enumerate), (zip, _t_zip), (range, _t_range),
               (map, _t_map), (OrderedDict, _t_ordereddict),
               (bool, lambda *a: _boolf(*a))]
for _t, _m in TYPE_MODELS:
    MODELS[id(_t)] = _m
MODELS[id(type)] = _type
MODELS[id(reversed)] = _reversed


@model(_copy.deepcopy)
def _deepcopy(x, memo=None):
    return _reg(_copy.deepcopy(x))


@model(_copy.copy)
def _copyf(x):
    return _reg(_copy.copy(x))


# ---------------------------------------------------------------- json (assumed contract)
class JsonText(Sym):
    """json.dumps(obj): loads(dumps(x)) == jsonify(x)   (assumed contract of the json module)"""
    def __init__(self, obj):
        self.obj = obj
    pytypes = (str,)

    def encode(self, *a, **k):
        return self

    def decode(self, *a, **k):
        return self


def jsonify(x):
    if isinstance(x, (SymNum, SymBool, SymStr, str, bool, type(None), SymSeq)) or isinstance(x, numbers.Number):
        if isinstance(x, SymSeq):
            return SymSeq(x.n, lambda i: jsonify(x.get(i)))
        return x
    if isinstance(x, VList) and x.sym is not None:
        s = x.as_seq()
        return SymSeq(s.n, lambda i: jsonify(s.get(i)))
    if isinstance(x, (list, tuple)):
        return VList([jsonify(y) for y in x])
    if isinstance(x, dict):
        if is_symbolic_container(x):
            raise Unsupported("json of a symbolic map")
        d = VDict()
        for k, v in dict.items(x):
            if isinstance(k, tuple):
                raise TypeError("keys must be str, int, float, bool or None, not tuple")
            if not isinstance(k, str):
                k = to_text(k) if not isinstance(k, bool) and k is not None else _json.dumps(k)
            d[k] = jsonify(v)
        return d
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


@model(_json.dumps)
def _dumps(x, **k):
    if not deep_symbolic(x):
        return _json.dumps(x, **k)
    if set(k) - {"indent", "sort_keys", "separators"}:
        raise Unsupported("json.dumps options")
    return JsonText(jsonify(x))


@model(_json.loads)
def _loads(s, **k):
    if isinstance(s, JsonText):
        return jsonify(s.obj)
    if isinstance(s, Sym):
        raise Unsupported("json.loads of symbolic text")
    return _json.loads(s, **k)


@model(_json.dump)
def _dump(x, f, **k):
    f.write(_dumps(x, **k))


@model(_json.load)
def _load(f, **k):
    return _loads(f.read(), **k)


import os as _os


@model(_os.path.join)
def _pjoin(*a):
    if deep_symbolic(a):
        out = [a[0]]
        for x in a[1:]:
            out += ["/", x]
        return SymStr.make(out)
    return _os.path.join(*a)


# ---------------------------------------------------------------- pydash (assumed contracts)
try:
    import pydash as _pd
    _pget, _pset = _pd.get, _pd.set_

    def _path(p):
        if isinstance(p, str):
            return p.split(".")
        if isinstance(p, (list, tuple)):
            return list(p)
        return [p]

    @model(_pd.get)
    def _pydash_get(obj, path, default=None):
        if not deep_symbolic(obj, depth=40) and not deep_symbolic(path):
            return _pget(obj, path, default)
        cur = obj
        for i, part in enumerate(_path(path)):
            if cur is None:
                return default
            if isinstance(cur, dict):
                if part in dict.keys(cur):
                    cur = cur[part]
                else:
                    return default
            elif isinstance(cur, (list, tuple)) and str(part).lstrip("-").isdigit():
                try:
                    cur = cur[int(part)]
                except IndexError:
                    return default
            else:
                if hasattr(cur, str(part)) and not isinstance(cur, (Sym, list, tuple, str, int, float)):
                    cur = getattr(cur, part)
                else:
                    return default
        return default if cur is None else cur

    @model(_pd.set_)
    def _pydash_set(obj, path, value):
        cur = obj
        ps = _path(path)
        for i, part in enumerate(ps[:-1]):
            nxt = ps[i + 1]
            if isinstance(cur, list):
                raise Unsupported("pydash.set_ through a list")
            if part not in cur:
                if str(nxt).isdigit():
                    raise Unsupported("pydash.set_ creating a list")
                setitem(cur, part, mkdict())
            elif cur[part] is None:
                return obj          # pydash never overrides a present None: nothing is set
            elif not isinstance(cur[part], (dict, list)):
                raise Unsupported("pydash.set_ through a scalar")
            cur = cur[part]
        setitem(cur, ps[-1], value)
        return obj

    @model(_pd.clone_deep)
    def _pydash_clone(x):
        return _reg(_copy.deepcopy(x))

    @model(_pd.unset)
    def _pydash_unset(obj, path):
        cur = obj
        ps = _path(path)
        for part in ps[:-1]:
            if not isinstance(cur, dict) or part not in cur:
                return False
            cur = cur[part]
        if isinstance(cur, dict) and ps[-1] in cur:
            del cur[ps[-1]]
            return True
        return False
except ImportError:          # pragma: no cover
    pass


# ---------------------------------------------------------------- monty
import monty.serialization as _ms      # noqa


import numpy as _npm      # noqa


@model(_npm.absolute)
def _npabs(x, *a, **k):
    return abs(x) if isinstance(x, SymNum) and not a and not k else _npm.absolute(x, *a, **k)


import os.path as _osp      # noqa


@model(_osp.exists)
def _exists(path):
    return isinstance(path, str) and path in ex().vfs or _osp.exists(path)


@model(_ms.loadfn)
def _loadfn(path, *a, **k):
    f = ex().vfs.get(_pathkey(path)) if isinstance(path, (str, SymStr)) else None
    if f is not None:
        return _loads(f.content())
    return _ms.loadfn(path, *a, **k)


@model(_ms.dumpfn)
def _dumpfn(obj, path, *a, **k):
    if deep_symbolic(obj) and isinstance(path, str) and not a and not k:
        f = VFile(path, "w")
        f.out = [_dumps(obj)]
        ex().vfs[path] = f
        return None
    return _ms.dumpfn(obj, path, *a, **k)


def engine_reraise():
    """`except BaseException` of the code under proof does not see the engine's own control flow"""
    import sys
    from .core import VCEngineException
    x = sys.exc_info()[1]
    if isinstance(x, VCEngineException):
        raise x


import csv as _csv      # noqa
import monty.os as _mos      # noqa


class VCsvWriter:
    """csv.writer on an in-memory file. Assumed contract: fields joined by commas, lines ended by CRLF; fields that need quoting are not modelled"""
    __vc_symbolic__ = True

    def __init__(self, f):
        self.f = f

    def writerow(self, row):
        out = []
        for i, x in enumerate(row):
            x = x if isinstance(x, (str, SymStr)) else _t_str(x)
            for p in ([x] if isinstance(x, str) else x.p):
                if isinstance(p, str) and set(p) & set(',"\r\n') or not isinstance(p, str) and (not isinstance(p.chars, (set, frozenset)) or p.chars & set(',"\r\n')):
                    raise Unsupported("csv field that may need quoting")
            out += ([","] if i else []) + [x]
        self.f.write(SymStr.make(out + ["\r\n"]))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


@model(_csv.writer)
def _csvwriter(f, *a, **k):
    if isinstance(f, VFile):
        if a or k:
            raise Unsupported("csv.writer options")
        return VCsvWriter(f)
    return _csv.writer(f, *a, **k)


def _virtual(p):
    return isinstance(p, str) and p.startswith("/vc-virtual")


@model(_os.makedirs)
def _makedirs(p, *a, **k):
    return None if _virtual(p) else _os.makedirs(p, *a, **k)


@model(_mos.makedirs_p)
def _makedirs_p(p, *a, **k):
    return None if _virtual(p) else _mos.makedirs_p(p, *a, **k)
