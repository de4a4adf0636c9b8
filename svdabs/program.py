"""Source model: modules, classes, functions and annotations of the analysed tree,
built from the syntax trees only (nothing is imported or executed)."""
from __future__ import annotations

import ast
import builtins
import hashlib
import os

from .core import T_NONE, ty


class AnalysisBroken(Exception):
    """The tree cannot be analysed at all (anchor vanished, syntax error ...)."""


class Func:
    __slots__ = ("node", "module", "cls", "qual", "parent", "decorators", "is_gen")

    def __init__(self, node, module, cls, qual, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.parent = parent
        self.decorators = [dec_name(d) for d in getattr(node, "decorator_list", [])]
        self.is_gen = _is_gen(node)

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<{self.qual}>"


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return (dec_name(d.value) + "." if isinstance(d.value, (ast.Name, ast.Attribute)) else "") + d.attr
    return "?"


class Class:
    def __init__(self, node, module, qual, outer=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.attrs: dict[str, ast.expr] = {}  # class-level assignments
        self.ann: dict[str, ast.expr] = {}
        self.inner: dict[str, "Class"] = {}
        self.bases: list = []  # resolved lazily: Class | str
        self._mro = None
        self.decorators = [dec_name(d) for d in node.decorator_list]
        self.dec_nodes = node.decorator_list
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, self, f"{qual}.{s.name}")
                if any(d.endswith(".setter") for d in f.decorators):
                    self.setters[s.name] = f
                elif "overload" in f.decorators or "typing.overload" in f.decorators:
                    continue
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Class(s, module, f"{qual}.{s.name}")

    def __repr__(self):
        return f"<class {self.qual}>"

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for d in self.decorators)

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Module:
    def __init__(self, name, path, rel, src, tree):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = src
        self.tree = tree
        self.names: dict = {}  # name -> ('class',Class)|('func',Func)|('import',mod,attr)|('mod',name)|('assign',expr)
        self.is_pkg = path.endswith("__init__.py")


class Program:
    def __init__(self, root, package="svdsuite"):
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, "src", package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)
                    parts = os.path.relpath(p, os.path.join(root, "src"))[:-3].split(os.sep)
                    if parts[-1] == "__init__":
                        parts = parts[:-1]
                    name = ".".join(parts)
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    self.digest.update(rel.encode() + b"\0" + src.encode())
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"{rel}: {e}")
                    self.modules[name] = Module(name, p, rel, src, tree)
        for m in list(self.modules.values()):
            self._collect(m, m.tree.body)
        self._finish(list(self.modules.values()))

    def _finish(self, mods):
        cs = []
        for m in mods:
            for c in self._classes_of(m):
                cs.append(c)
                self.classes[c.qual] = c
                for f in list(c.methods.values()) + list(c.setters.values()):
                    self.funcs[f.qual if f not in c.setters.values() else f.qual + "#set"] = f
            for k, (kind, *rest) in m.names.items():
                if kind == "func":
                    self.funcs[rest[0].qual] = rest[0]
        for c in cs:
            c.bases = [self._resolve_base(c.module, b) for b in c.node.bases]

    def add_module(self, name, path):
        """a reference module, analysed by the same interpreter, never executed"""
        if name in self.modules:
            return self.modules[name]
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        m = Module(name, path, os.path.basename(path), src, ast.parse(src, path))
        self.modules[name] = m
        self._collect(m, m.tree.body)
        self._finish([m])
        return m

    # -- collection ---------------------------------------------------------
    def _classes_of(self, m):
        out = []

        def rec(c):
            out.append(c)
            for i in c.inner.values():
                rec(i)

        for k, v in m.names.items():
            if v[0] == "class":
                rec(v[1])
        return out

    def _collect(self, m, body, cond=False):
        for s in body:
            if isinstance(s, ast.ClassDef):
                m.names[s.name] = ("class", Class(s, m, f"{m.name}.{s.name}"))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m, None, f"{m.name}.{s.name}")
                if "overload" in f.decorators or "typing.overload" in f.decorators:
                    continue
                m.names[s.name] = ("func", f)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("mod", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(m, s)
                for a in s.names:
                    m.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("assign", s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                m.names[a.id] = ("assign", b)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    m.names[s.target.id] = ("assign", s.value)
            elif hasattr(ast, "TypeAlias") and isinstance(s, ast.TypeAlias):
                m.names[s.name.id] = ("assign", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(m, s.body, True)
                for x in getattr(s, "handlers", []):
                    self._collect(m, x.body, True)
                self._collect(m, s.orelse, True)

    def _from_base(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts += s.module.split(".")
        return ".".join(parts)

    # -- resolution ----------------------------------------------------------
    def lookup(self, module, name, depth=0):
        """-> ('class',C) | ('func',F) | ('assign', expr, module) | ('mod', name) | ('ext', dotted) | None"""
        if depth > 12:
            return None
        v = module.names.get(name)
        if v is None:
            return None
        if v[0] == "assign":
            return ("assign", v[1], module)
        if v[0] == "import":
            return self.lookup_from(v[1], v[2], depth)
        if v[0] == "mod":
            return v
        return v

    def lookup_from(self, modname, attr, depth=0):
        m = self.modules.get(modname)
        if m is not None:
            r = self.lookup(m, attr, depth + 1)
            if r is not None:
                return r
        sub = f"{modname}.{attr}" if modname else attr
        if sub in self.modules:
            return ("mod", sub)
        if m is None:
            return ("ext", sub)
        return None

    def _resolve_base(self, m, expr):
        r = self.resolve_expr(m, expr)
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "ext":
            return r[1]
        if isinstance(expr, ast.Name):
            return expr.id
        if isinstance(expr, ast.Subscript):
            return self._resolve_base(m, expr.value)
        return "?"

    def resolve_expr(self, m, expr):
        if isinstance(expr, ast.Name):
            return self.lookup(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value)
            if b is None:
                return None
            if b[0] == "mod":
                if b[1] in self.modules:
                    return self.lookup_from(b[1], expr.attr)
                return ("ext", f"{b[1]}.{expr.attr}")
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{expr.attr}")
            if b[0] == "class":
                i = b[1].inner.get(expr.attr)
                if i:
                    return ("class", i)
        return None

    def mro(self, c):
        if c._mro is None:
            seqs = []
            for b in c.bases:
                if isinstance(b, Class):
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in c.bases if isinstance(b, Class)])
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in o[1:] for o in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            c._mro = out
        return c._mro

    def base_names(self, c) -> set:
        """All ancestor names (repo quals and external dotted names)."""
        out = set()
        for k in self.mro(c):
            out.add(k.qual)
            for b in k.bases:
                if isinstance(b, str):
                    out.add(b)
                    short = b.split(".")[-1]
                    o = getattr(builtins, short, None)
                    if isinstance(o, type):
                        out.update(x.__name__ for x in o.__mro__)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_enum(self, c):
        return any(n in ("Enum", "enum.Enum", "IntEnum", "enum.IntEnum", "StrEnum", "enum.StrEnum", "Flag", "enum.Flag",
                         "IntFlag", "enum.IntFlag") for n in self.base_names(c))

    def enum_members(self, c):
        """ordered [(name, expr)]"""
        return [(k, v) for k, v in c.attrs.items() if not k.startswith("_")]

    def dc_fields(self, c):
        """ordered [(name, annotation, default expr | None, owner class)], dataclass order"""
        out: dict = {}
        for k in reversed(self.mro(c)):
            if not k.is_dataclass:
                continue
            for n, a in k.ann.items():
                if isinstance(a, ast.Name) and a.id == "ClassVar":
                    continue
                out[n] = (n, a, k.attrs.get(n), k)
        return list(out.values())

    def is_dc(self, c):
        return any(k.is_dataclass for k in self.mro(c))

    def subclass_of(self, c, other_qual):
        return other_qual in self.base_names(c)

    def cls(self, qual_or_name):
        if qual_or_name in self.classes:
            return self.classes[qual_or_name]
        c = [k for k in self.classes.values() if k.name == qual_or_name]
        return c[0] if len(c) == 1 else None

    def find_func(self, cls, name):
        """Function by (class simple name or None, function name)."""
        for f in self.funcs.values():
            if f.name == name and ((f.cls.name if f.cls else None) == cls):
                return f
        return None

    # -- annotations -----------------------------------------------------------
    def ann_type(self, m, e, depth=0):
        if e is None or depth > 10:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return T_NONE
            if isinstance(e.value, str):
                try:
                    return self.ann_type(m, ast.parse(e.value, mode="eval").body, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.ann_type(m, e.left, depth + 1), self.ann_type(m, e.right, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.Name):
            if e.id in ("int", "str", "bool", "bytes", "float"):
                return ty((e.id,))
            if e.id in ("list", "List", "Sequence", "Iterable", "Collection", "Iterator"):
                return ty(("list", None))
            if e.id in ("dict", "Dict"):
                return ty(("dict", None, None))
            if e.id == "set":
                return ty(("set", None))
            if e.id == "type":
                return ty(("type",))
            r = self.lookup(m, e.id)
            return self._ann_resolved(r, depth)
        if isinstance(e, ast.Attribute):
            n = ast.unparse(e)
            if n.endswith("etree._Element"):
                return ty(("xml",))
            if n.endswith("etree._ElementTree"):
                return ty(("tree",))
            return self._ann_resolved(self.resolve_expr(m, e), depth)
        if isinstance(e, ast.Subscript):
            h = ast.unparse(e.value).split(".")[-1]
            sl = e.slice
            if h == "Optional":
                a = self.ann_type(m, sl, depth + 1)
                return None if a is None else a | T_NONE
            if h == "Union":
                out = frozenset()
                for x in sl.elts if isinstance(sl, ast.Tuple) else [sl]:
                    a = self.ann_type(m, x, depth + 1)
                    if a is None:
                        return None
                    out |= a
                return out
            if h in ("list", "List", "Sequence", "Iterable", "Collection", "Iterator", "deque", "Deque"):
                return ty(("list", self.ann_type(m, sl, depth + 1)))
            if h in ("set", "Set", "frozenset"):
                return ty(("set", self.ann_type(m, sl, depth + 1)))
            if h in ("tuple", "Tuple"):
                if isinstance(sl, ast.Tuple):
                    return ty(("tuple", tuple(self.ann_type(m, x, depth + 1) for x in sl.elts)))
                return ty(("tuple", (self.ann_type(m, sl, depth + 1),)))
            if h in ("dict", "Dict", "DefaultDict", "defaultdict", "Mapping"):
                if isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                    return ty(("dict", self.ann_type(m, sl.elts[0], depth + 1), self.ann_type(m, sl.elts[1], depth + 1)))
            if h == "Literal":
                out = frozenset()
                for x in sl.elts if isinstance(sl, ast.Tuple) else [sl]:
                    if isinstance(x, ast.Constant):
                        out |= T_NONE if x.value is None else ty((type(x.value).__name__,))
                return out or None
        return None

    def _ann_resolved(self, r, depth):
        if r is None:
            return None
        if r[0] == "class":
            return ty(("cls", r[1].qual))
        if r[0] == "assign":
            return self.ann_type(r[2], r[1], depth + 1)
        if r[0] == "ext":
            if r[1].endswith("etree._Element"):
                return ty(("xml",))
            if r[1].endswith("etree._ElementTree"):
                return ty(("tree",))
        return None

    def attr_type(self, c, name):
        for k in self.mro(c):
            if name in k.ann:
                return self.ann_type(k.module, k.ann[name])
        # self.x: T = ... / self.x = param in __init__
        init = self.find_method(c, "__init__")
        if init is not None:
            params = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
            for s in ast.walk(init.node):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr == name:
                    return self.ann_type(init.module, s.annotation)
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(s.value, ast.Name) and s.value.id in params:
                            return self.ann_type(init.module, params[s.value.id])
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(s.value, ast.Call):
                            r = self.resolve_expr(init.module, s.value.func)
                            if r and r[0] == "class":
                                return ty(("cls", r[1].qual))
        return None
