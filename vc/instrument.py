"""Mechanical rewriting of the real beep modules (on every run, from /repo's current source).

What is rewritten inside function bodies (nothing else changes, line numbers are kept):
  calls -> _vc_.call / _vc_.callm, f-strings, `in`, subscripts, list/dict/set displays,
  single-generator comprehensions, `%`, for-loops (native loop kept for concrete iterables,
  an inductive cut for symbolic ones), bare `except:` -> `except Exception:`.
With no symbolic execution under way every helper behaves as the native construct.
"""
import ast
import copy
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
NOCALL = {"super", "locals", "globals", "vars", "eval", "exec"}


def L(node, src):
    return ast.copy_location(ast.fix_missing_locations(node), src)


def vcattr(name):
    return ast.Attribute(ast.Name("_vc_", ast.Load()), name, ast.Load())


def assigned_names(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith("_vc_"):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)
    for s in stmts:
        V().visit(s)
    return out


def has_own_break(stmts):
    """break belonging to this loop level"""
    for s in stmts:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While)):
            if has_own_break(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_own_break(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if has_own_break(h.body):
                return True
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.nloop = 0
        self.uid = 0
        self.fn = []
        self.in_del = 0

    # ---- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [d for d in n.decorator_list]
        outer_loop = self.nloop
        self.depth += 1
        self.fn.append(n.name)
        if len(self.fn) == 1:
            self.nloop = 0
        n.body = self._stmts(n.body)
        self.fn.pop()
        self.depth -= 1
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.fn.append(n.name)
        n.body = self._stmts(n.body)
        self.fn.pop()
        self.depth = d
        return n

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Lambda(self, n):
        n.args = n.args
        if self.depth == 0:
            return n
        n.body = self.visit(n.body)
        return n

    # ---- expressions
    def visit_Call(self, n):
        if self.depth == 0:
            return n
        if isinstance(n.func, ast.Name) and n.func.id in NOCALL:
            return n
        args = [self.visit(a) for a in n.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        if isinstance(n.func, ast.Attribute):
            obj = self.visit(n.func.value)
            new = ast.Call(vcattr("callm"), [obj, ast.Constant(n.func.attr)] + args, kws)
        else:
            new = ast.Call(vcattr("call"), [self.visit(n.func)] + args, kws)
        return L(new, n)

    def visit_Starred(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_JoinedStr(self, n):
        if self.depth == 0:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return L(ast.Call(vcattr("fstring"), parts, []), n)

    def visit_Compare(self, n):
        if self.depth == 0:
            return n
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            nm = "contains" if isinstance(n.ops[0], ast.In) else "not_contains"
            return L(ast.Call(vcattr(nm), [self.visit(n.left), self.visit(n.comparators[0])], []), n)
        return self.generic_visit(n)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name("_vc_slice", ast.Load()),
                            [self.visit(x) if x is not None else none for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._index(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, n):
        if self.depth == 0:
            return n
        if isinstance(n.ctx, ast.Load):
            return L(ast.Call(vcattr("getitem"), [self.visit(n.value), self._index(n.slice)], []), n)
        n.value = self.visit(n.value)
        if isinstance(n.slice, (ast.Slice, ast.Tuple)):
            n.slice = L(self._index(n.slice), n)
        else:
            n.slice = self.visit(n.slice)
        return n

    def visit_BinOp(self, n):
        if self.depth == 0:
            return n
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return L(ast.Call(vcattr("mod"), [n.left, n.right], []), n)
        return n

    def visit_List(self, n):
        if self.depth == 0 or not isinstance(n.ctx, ast.Load):
            return n if self.depth == 0 else self.generic_visit(n)
        n = self.generic_visit(n)
        return L(ast.Call(vcattr("mklist"), [n], []), n)

    def visit_Dict(self, n):
        if self.depth == 0:
            return n
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(ast.Tuple([self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
        return L(ast.Call(vcattr("mkdict"), items, []), n)

    def visit_Set(self, n):
        if self.depth == 0:
            return n
        n = self.generic_visit(n)
        return L(ast.Call(vcattr("mkset"), n.elts, []), n)

    def _comp(self, n, kind):
        if self.depth == 0 or len(n.generators) != 1 or n.generators[0].is_async:
            if self.depth == 0:
                return n
            return self.generic_visit(n)
        for sub in ast.walk(n):
            if isinstance(sub, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return self.generic_visit(n)
        g = n.generators[0]
        it = self.visit(g.iter)

        def fn(e):
            # [e for target in (x,)][0] keeps arbitrary target patterns
            inner = ast.ListComp(self.visit(copy.deepcopy(e)),
                                 [ast.comprehension(copy.deepcopy(g.target), ast.Tuple([ast.Name("_vc_x", ast.Load())], ast.Load()), [], 0)])
            return ast.Lambda(ast.arguments([], [ast.arg("_vc_x")], None, [], [], None, []),
                              ast.Subscript(inner, ast.Constant(0), ast.Load()))
        if kind == "dict":
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            elt = n.elt
        conds = ast.List([fn(c) for c in g.ifs], ast.Load())
        return L(ast.Call(vcattr("comp"), [ast.Constant(kind), it, fn(elt), conds], []), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    # ---- statements
    def visit_Assign(self, n):
        if self.depth == 0:
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            val = self.visit(n.value)
            call = ast.Call(vcattr("setitem"), [self.visit(t.value), self._index(t.slice), val], [])
            return L(ast.Expr(call), n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            call = ast.Call(vcattr("setattr_"), [self.visit(t.value), ast.Constant(t.attr), self.visit(n.value)], [])
            # keep a native store for name-mangled attributes
            if t.attr.startswith("__") and not t.attr.endswith("__"):
                return self.generic_visit(n)
            return L(ast.Expr(call), n)
        return self.generic_visit(n)

    def visit_AugAssign(self, n):
        if self.depth == 0:
            return n
        op = type(n.op).__name__
        if isinstance(n.target, ast.Subscript):
            t = n.target
            return L(ast.Expr(ast.Call(vcattr("augitem"), [self.visit(t.value), self._index(t.slice), ast.Constant(op),
                                                           self.visit(n.value)], [])), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return L(ast.Assign([n.target], ast.Call(vcattr("mod"), [ast.Name(n.target.id, ast.Load()), self.visit(n.value)], [])), n)
        n.value = self.visit(n.value)
        return n

    def visit_ExceptHandler(self, n):
        if self.depth and (n.type is None or (isinstance(n.type, ast.Name) and n.type.id == "BaseException")):
            n = self.generic_visit(n)
            n.body.insert(0, L(ast.Expr(ast.Call(vcattr("engine_reraise"), [], [])), n.body[0]))
            return n
        return self.generic_visit(n)

    def visit_For(self, n):
        if self.depth == 0:
            return n
        self.nloop += 1
        lid = "%s:%s#%d" % (self.mod, ".".join(self.fn), self.nloop)
        self.uid += 1
        u = self.uid
        it, st = "_vc_it%d" % u, "_vc_st%d" % u
        iter_ = self.visit(n.iter)
        mods = assigned_names([n])
        tnames = assigned_names([ast.Assign([copy.deepcopy(n.target)], ast.Constant(0))])
        nl = self.nloop
        body1 = self._stmts(copy.deepcopy(n.body))
        self.nloop = nl
        body2 = self._stmts(n.body)
        orelse = self._stmts(n.orelse)
        target = self.visit(n.target)
        pre = L(ast.Assign([ast.Name(it, ast.Store())], ast.Call(vcattr("iter_"), [iter_], [])), n)
        native = ast.For(copy.deepcopy(target), ast.Name(it, ast.Load()), body2, orelse)
        begin = ast.Assign([ast.Name(st, ast.Store())], ast.Call(vcattr("cut_begin"), [
            ast.Constant(lid), ast.Name(it, ast.Load()), ast.Call(ast.Name("locals", ast.Load()), [], []),
            ast.List([ast.Constant(m) for m in mods], ast.Load()), ast.List([ast.Constant(m) for m in tnames], ast.Load()),
            ast.Constant(bool(n.orelse) or False)], []))
        sets = [ast.Assign([ast.Name(m, ast.Store())], ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "var", ast.Load()), [ast.Constant(m)], []))
                for m in mods]
        once = ast.For(ast.Name("_vc_once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), body1,
                       [ast.Expr(ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "close", ast.Load()),
                                          [ast.Call(ast.Name("locals", ast.Load()), [], [])], []))])
        enter = ast.If(ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "enter", ast.Load()), [], []),
                       [ast.Assign([target], ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "elem", ast.Load()), [], [])), once,
                        ast.Expr(ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "broke", ast.Load()), [], []))],
                       [])
        cut = [begin] + sets + [enter]
        iff = ast.If(ast.Call(vcattr("is_cut"), [ast.Name(it, ast.Load())], []), cut, [native])
        return [pre, L(iff, n)]


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError()

    def set_data(self, *a):
        pass

    def get_code(self, fullname):
        return self.source_to_code(self.get_data(self.path), self.path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        rw = Rewriter(self.name)
        tree.body = [x for s in tree.body for x in (lambda r: r if isinstance(r, list) else [r])(rw.visit(s))]
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import models
        module._vc_ = models
        module._vc_slice = slice
        module.__file__ = self.path
        INSTRUMENTED.add(module.__name__)
        super().exec_module(module)


INSTRUMENTED = set()
TARGETS = set()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name not in TARGETS:
            return None
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel + ".py")
        pk = False
        if not os.path.exists(p):
            p = os.path.join(REPO, rel, "__init__.py")
            pk = True
            if not os.path.exists(p):
                return None
        return importlib.util.spec_from_loader(name, Loader(name, p), origin=p, is_package=pk)


def all_modules():
    out = set()
    for d, _, fs in os.walk(os.path.join(REPO, "beep")):
        if "tests" in d:
            continue
        for f in fs:
            if f.endswith(".py") and not f.startswith("test_") and f != "__init__.py":
                out.add(os.path.relpath(os.path.join(d, f), REPO)[:-3].replace("/", "."))
    return out


SKIP = {"beep.utils.memprof"}


def install():
    TARGETS.update(all_modules() - SKIP)
    sys.meta_path.insert(0, Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
