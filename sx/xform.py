"""Regenerates the encoding: the current source of /repo is parsed, its AST is instrumented, and the
result is executed by CPython on symbolic values (see builtins_.py for the hooks)."""
from __future__ import annotations

import ast
import builtins as B
import importlib
import os
import sys
import types

from . import builtins_ as R
from .core import Steer

REPO = os.environ.get("RXLS_REPO", "/repo")
SX = "__sx__"
PURE = {"xml.sax.saxutils", "html", "urllib.parse", "posixpath"}


def _hook(name, *args):
    return ast.Call(ast.Attribute(ast.Name(SX, ast.Load()), name, ast.Load()), list(args), [])


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.cls: list[str] = []
        self.qual: list[str] = []

    # ---- never touch annotations
    def _fn(self, node):
        self.qual.append(node.name)
        q = self.mod + ":" + ".".join(self.qual)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        doc = 1 if ast.get_docstring(node, clean=False) is not None else 0
        node.body.insert(doc, ast.Expr(_hook("enter", ast.Constant(q))))
        self.qual.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.qual.pop()
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # ---- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            h = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
            return ast.copy_location(_hook(h, node.comparators[0], node.left), node)
        # a chain containing `in`: evaluate pairwise (operands are duplicated; only safe for names and constants)
        items = [node.left, *node.comparators]
        if not all(isinstance(x, (ast.Name, ast.Constant)) for x in items[1:-1]):
            return node
        parts = []
        for i, o in enumerate(node.ops):
            l, r = items[i], items[i + 1]
            if isinstance(o, ast.In):
                parts.append(_hook("contains", r, l))
            elif isinstance(o, ast.NotIn):
                parts.append(_hook("not_contains", r, l))
            else:
                parts.append(ast.Compare(l, [o], [r]))
        return ast.copy_location(ast.BoolOp(ast.And(), parts), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(_hook("fstr", ast.List(parts, ast.Load())), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_hook("percent", node.left, node.right), node)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                self.generic_visit(node)
                return node
            name = f.attr
            if name.startswith("__") and not name.endswith("__") and self.cls:
                name = "_" + self.cls[-1].lstrip("_") + name
            obj = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
            c = _hook("callm", obj, ast.Constant(name), *args)
            c.keywords = kws
            return ast.copy_location(c, node)
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        literal = isinstance(node.ctx, ast.Load) and isinstance(node.value, (ast.Constant, ast.JoinedStr))
        self.generic_visit(node)
        if literal:
            return ast.copy_location(_hook("bound", node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(None)
                s = ast.Call(ast.Attribute(ast.Name(SX, ast.Load()), "slice", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
            elif isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts):
                return node
            return ast.copy_location(_hook("getitem", node.value, s), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_hook("mkset", *node.elts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Constant(True), v], ast.Load()))
            else:
                items.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return ast.copy_location(_hook("mkdict", ast.List(items, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_hook("setcomp", ast.GeneratorExp(node.elt, node.generators)), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _hook("dictcomp", ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)),
            node,
        )

    # ---- statements
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_hook("tick")))
        return node

    visit_For = _loop
    visit_While = _loop

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            node.handlers.insert(
                0,
                ast.ExceptHandler(
                    ast.Attribute(ast.Name(SX, ast.Load()), "Steer", ast.Load()),
                    None,
                    [ast.Raise(None, None)],
                ),
            )
        return node


_CODE: dict = {}


class Hooks:
    Steer = Steer
    slice = slice
    contains = staticmethod(R.contains)
    not_contains = staticmethod(R.not_contains)
    fstr = staticmethod(R.fstr)
    percent = staticmethod(R.percent)
    callm = staticmethod(R.callm)
    bound = staticmethod(R.bound)
    getitem = staticmethod(R.getitem)
    enter = staticmethod(R.enter)
    tick = staticmethod(R.tick)
    mkset = staticmethod(R.mkset)
    mkdict = staticmethod(R.mkdict)
    setcomp = staticmethod(R.setcomp)
    dictcomp = staticmethod(R.dictcomp)


class Loader:
    """Private module universe: rxls from source through Xform, modelled libraries, real everything else."""

    def __init__(self, models: dict, repo: str = REPO, package: str = "rxls"):
        self.repo = repo
        self.package = package
        self.models = models
        self.mods: dict[str, types.ModuleType] = {}
        b = dict(vars(B))
        b.update(R.OVERRIDES)
        b["__import__"] = self._import
        self.builtins = b

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, is_pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__[SX] = Hooks
        self.mods[name] = m
        code = _CODE.get((path, name))
        if code is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Xform(name).visit(tree)
            ast.fix_missing_locations(tree)
            code = _CODE[path, name] = compile(tree, path, "exec", dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, child = name.rpartition(".")
        if parent:
            setattr(self.mods[parent], child, m)
        return m

    def _pure(self, name):
        """a module of the standard library that only computes on texts, from its source like the code under test"""
        if name not in self.mods:
            self.mods[name] = m = types.ModuleType(name)
            path = importlib.import_module(name).__file__
            m.__file__, m.__package__ = path, name.rpartition(".")[0]
            m.__dict__[SX] = Hooks
            with open(path, encoding="utf-8") as f:
                tree = Xform(name).visit(ast.parse(f.read(), path))
            ast.fix_missing_locations(tree)
            # relative and further imports are the real ones, but for regular expressions and what is written in C
            m.__dict__["__builtins__"] = dict(self.builtins, __import__=self._import_pure)
            exec(compile(tree, path, "exec", dont_inherit=True), m.__dict__)
        return self.mods[name]

    def _import_pure(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name == "re" and name in self.models:
            return self.models[name]
        if name == "posix":
            raise ImportError(name)
        if name == "os":
            ns = types.SimpleNamespace(**vars(os))
            ns.fspath = lambda p: p if isinstance(p, (str, bytes)) or hasattr(p, "as_py") else os.fspath(p)
            return ns
        return B.__import__(name, globals, locals, fromlist, level)

    def _is_own(self, name):
        return name == self.package or name.startswith(self.package + ".")

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            name = ".".join(base + ([name] if name else []))
        if self._is_own(name):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(name.split(".")[0])
        if name in self.models:
            if fromlist or "." not in name:
                return self.models[name]
            return self.models[name.split(".")[0]]
        if name in PURE:
            m = self._pure(name)
            if fromlist or "." not in name:
                return m
            head, *rest = name.split(".")
            top = ns = types.SimpleNamespace(**vars(B.__import__(head)))
            for part in rest[:-1]:
                sub = types.SimpleNamespace(**vars(getattr(ns, part)))
                setattr(ns, part, sub)
                ns = sub
            setattr(ns, rest[-1], m)
            return top
        top = name.split(".")[0]
        if top in ("numpy", "pyarrow"):
            sub = self.models[top]
            for part in name.split(".")[1:]:
                sub = getattr(sub, part)
            return sub if fromlist else self.models[top]
        return B.__import__(name, globals, locals, fromlist, 0)
