"""Whole-program analyses over the syntax trees: static types of expressions, call graph, escaping exceptions, effects on
values owned by the caller or shared between runs, and sources of non-determinism."""
from __future__ import annotations

import ast
import builtins
import re

from .core import T_NONE, ty
from .program import Class, Func

T_INT, T_STR, T_BOOL = ty(("int",)), ty(("str",)), ty(("bool",))
FRESH_LIST = {"list", "sorted", "tuple"}
SET_OPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}


def plain(text):
    """text without the marks of renamed variables"""
    return re.sub("\u00b7+\\d+", "", text)


def own_nodes(node):
    """nodes of a function without those of functions and classes nested in it"""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def all_funcs(prog, skip=("specs",)):
    """every function of the package, nested ones and lambdas included"""
    out = []

    def rec(f):
        out.append(f)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                rec(Func(n, f.module, f.cls, f"{f.qual}.{getattr(n, 'name', '<lambda>')}", f))

    for f in {id(f): f for f in prog.funcs.values()}.values():
        if not f.module.name.startswith(skip):
            rec(f)
    return out


def union(ts):
    out = frozenset()
    for t in ts:
        if t is None:
            return None
        out |= t
    return out or None


class Types:
    """static types of the expressions of one function, from annotations and constructors; None: not known"""

    def __init__(self, prog, f, outer=None):
        self.prog, self.f, self.m = prog, f, f.module
        self.vars: dict = {}
        if f.parent is not None:
            self.vars.update((outer or Types(prog, f.parent)).vars)
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.vars[p.arg] = prog.ann_type(f.module, p.annotation)
        if f.cls is not None and f.parent is None and "staticmethod" not in f.decorators and (a.posonlyargs + a.args):
            self.vars[(a.posonlyargs + a.args)[0].arg] = ty(("type",)) if "classmethod" in f.decorators else ty(("cls", f.cls.qual))
        for _ in range(3):
            seen: dict = {}
            for n in own_nodes(f.node):
                self._bind(n, seen)
            for k, ts in seen.items():
                self.vars[k] = union(ts)

    def _bind(self, n, seen):
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            seen.setdefault(n.target.id, []).append(self.prog.ann_type(self.m, n.annotation))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                self._target(t, self.of(n.value), seen, n.value)
        elif isinstance(n, ast.NamedExpr):
            self._target(n.target, self.of(n.value), seen, n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            self._target(n.target, self.elem(n.iter), seen)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    self._target(i.optional_vars, self.of(i.context_expr), seen)

    def _target(self, t, v, seen, value=None):
        if isinstance(t, ast.Name):
            seen.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = [x[1] for x in (v or ()) if x[0] == "tuple"]
            for i, x in enumerate(t.elts):
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    self._target(x, self.of(value.elts[i]), seen)
                else:
                    self._target(x, parts[0][i] if len(parts) == 1 and i < len(parts[0]) else None, seen)
        elif isinstance(t, ast.Starred):
            self._target(t.value, None, seen)

    def elem(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            n = e.func.id
            if n in ("sorted", "list", "reversed", "tuple", "iter", "set", "frozenset") and e.args:
                return self.elem(e.args[0])
            if n == "range":
                return T_INT
            if n == "enumerate" and e.args:
                return ty(("tuple", (T_INT, self.elem(e.args[0]))))
            if n == "zip":
                return ty(("tuple", tuple(self.elem(a) for a in e.args)))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "values", "keys"):
            d = [x for x in (self.of(e.func.value) or ()) if x[0] == "dict"]
            if len(d) == 1:
                return {"items": ty(("tuple", (d[0][1], d[0][2]))), "values": d[0][2], "keys": d[0][1]}[e.func.attr]
        t = self.of(e)
        out = []
        for x in t or ():
            if x[0] in ("list", "set"):
                out.append(x[1])
            elif x[0] == "dict":
                out.append(x[1])
            elif x[0] == "tuple":
                out.append(union(x[1]))
            elif x[0] == "str":
                out.append(T_STR)
            elif x[0] == "none":
                continue
            else:
                out.append(None)
        return union(out) if out else None

    def of(self, e):
        p = self.prog
        if isinstance(e, ast.Constant):
            return T_NONE if e.value is None else ty((type(e.value).__name__,))
        if isinstance(e, ast.Name):
            if e.id in self.vars:
                return self.vars[e.id]
            r = p.lookup(self.m, e.id)
            if r and r[0] == "assign" and isinstance(r[1], ast.Constant):
                return self.of(r[1])
            return None
        if isinstance(e, (ast.List, ast.ListComp)):
            return ty(("list", union([self.of(x) for x in e.elts]) if isinstance(e, ast.List) else self.of(e.elt)))
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ty(("set", union([self.of(x) for x in e.elts]) if isinstance(e, ast.Set) else self.of(e.elt)))
        if isinstance(e, ast.Tuple):
            return ty(("tuple", tuple(self.of(x) for x in e.elts)))
        if isinstance(e, (ast.Dict, ast.DictComp)):
            if isinstance(e, ast.Dict):
                return ty(("dict", union([self.of(k) if k else None for k in e.keys]), union([self.of(v) for v in e.values])))
            return ty(("dict", self.of(e.key), self.of(e.value)))
        if isinstance(e, (ast.JoinedStr,)):
            return T_STR
        if isinstance(e, (ast.Compare,)):
            return T_BOOL
        if isinstance(e, ast.BoolOp):
            return union([self.of(v) for v in e.values])
        if isinstance(e, ast.IfExp):
            return union([self.of(e.body), self.of(e.orelse)])
        if isinstance(e, ast.UnaryOp):
            return T_BOOL if isinstance(e.op, ast.Not) else self.of(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.of(e.left), self.of(e.right)
            if a is not None and (a == b or any(x[0] == "set" for x in a)):
                return a
            return None
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value)
        if isinstance(e, ast.Attribute):
            out = []
            for x in self.of(e.value) or (("?",),):
                if x[0] == "none":
                    continue
                c = p.classes.get(x[1]) if x[0] == "cls" else None
                if c is None:
                    return None
                t = p.attr_type(c, e.attr)
                m = p.find_method(c, e.attr)
                if m is not None and any(d.split(".")[-1] in ("property", "cached_property") for d in m.decorators):
                    t = p.ann_type(m.module, m.node.returns)
                out.append(t)
            return union(out) if out else None
        if isinstance(e, ast.Subscript):
            out = []
            for x in self.of(e.value) or ():
                if x[0] == "list":
                    out.append(ty(x) if isinstance(e.slice, ast.Slice) else x[1])
                elif x[0] == "dict":
                    out.append(x[2])
                elif x[0] == "str":
                    out.append(T_STR)
                elif x[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value < len(x[1]):
                    out.append(x[1][e.slice.value])
                else:
                    out.append(None)
            return union(out) if out else None
        if isinstance(e, ast.Call):
            return self.call(e)
        return None

    def call(self, e):
        p, f = self.prog, e.func
        if isinstance(f, ast.Name) and f.id not in self.vars:
            r = p.lookup(self.m, f.id)
            if r is None and hasattr(builtins, f.id):
                if f.id in ("list", "sorted"):
                    return ty(("list", self.elem(e.args[0]) if e.args else None))
                if f.id in ("set", "frozenset"):
                    return ty(("set", self.elem(e.args[0]) if e.args else None))
                if f.id in ("int", "len", "abs", "pow", "ord", "id", "hash"):
                    return T_INT
                if f.id in ("str", "hex", "bin", "repr", "chr"):
                    return T_STR
                if f.id in ("bool", "isinstance", "any", "all"):
                    return T_BOOL
                if f.id in ("min", "max", "next") and len(e.args) == 1:
                    return self.elem(e.args[0])
                return None
            if r and r[0] == "ext" and r[1] in ("typing.cast",) and len(e.args) == 2:
                return p.ann_type(self.m, e.args[0])
            if r and r[0] == "ext" and r[1] in ("copy.copy", "copy.deepcopy", "dataclasses.replace") and e.args:
                return self.of(e.args[0])
        fs = self.targets(e)
        if fs:
            return union([ty(("cls", c.qual)) if isinstance(c, Class) else p.ann_type(c.module, c.node.returns) for c in fs])
        if isinstance(f, ast.Attribute):
            r = p.resolve_expr(self.m, f)
            if r and r[0] == "ext" and r[1] in ("copy.copy", "copy.deepcopy", "dataclasses.replace") and e.args:
                return self.of(e.args[0])
            b = self.of(f.value)
            if b is not None and any(x[0] == "set" for x in b) and f.attr in SET_OPS:
                return b
            if f.attr in ("copy", "pop", "get", "popleft"):
                for x in b or ():
                    if x[0] == "list":
                        return b if f.attr == "copy" else x[1]
                    if x[0] == "dict":
                        return b if f.attr == "copy" else x[2]
            if b == T_STR:
                if f.attr in ("split", "splitlines"):
                    return ty(("list", T_STR))
                return T_STR if f.attr in ("lower", "upper", "strip", "replace", "format", "join") else None
        return None

    def targets(self, e):
        """functions and classes of the package the call may reach as far as types tell; [] when not known"""
        p, f = self.prog, e.func
        if isinstance(f, ast.Name):
            r = p.lookup(self.m, f.id) if f.id not in self.vars else None
            if r and r[0] in ("func", "class"):
                return [r[1]]
            if f.id == "cls" and self.f.cls is not None:
                return [self.f.cls]
            return []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id not in self.vars or isinstance(f.value, ast.Attribute):
                r = p.resolve_expr(self.m, f.value)
                if r and r[0] == "class":
                    m = p.find_method(r[1], f.attr)
                    return [m] if m else []
                r = p.resolve_expr(self.m, f)
                if r and r[0] in ("func", "class"):
                    return [r[1]]
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.f.cls is not None:
                return [k.methods[f.attr] for k in p.mro(self.f.cls)[1:] if f.attr in k.methods][:1]
            if isinstance(f.value, ast.Name) and f.value.id == "cls" and self.f.cls is not None:
                m = p.find_method(self.f.cls, f.attr)
                return [m] if m else []
            out = []
            for x in self.of(f.value) or ():
                c = p.classes.get(x[1]) if x[0] == "cls" else None
                if c is not None:
                    for k in p.classes.values():
                        if p.subclass_of(k, c.qual):
                            m = p.find_method(k, f.attr)
                            if m is not None and m not in out:
                                out.append(m)
            return out
        return []


def rename_comprehensions(tree):
    """give the variables of each comprehension names of their own, in place"""
    comps = [n for n in ast.walk(tree) if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]
    for k, c in enumerate(reversed(comps)):  # inner ones first
        names = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        first = {id(n) for n in ast.walk(c.generators[0].iter)}
        for n in ast.walk(c):
            if isinstance(n, ast.Name) and n.id in names and id(n) not in first:
                n.id = f"{n.id}\u00b7{k}"


def rename_loops(tree):
    """give the variables of loops that are used in their loops only names of their own, in place"""
    fs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    for fn in reversed(fs):
        loops = [n for n in own_nodes(fn) if isinstance(n, ast.For)]
        names = {x.id for n in loops for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        args = {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        for v in names - args:
            mine = [n for n in loops if any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(n.target))]
            if len(mine) < 2:
                continue
            inner = {id(x) for n in mine for x in ast.walk(n)} - {id(x) for n in mine for x in ast.walk(n.iter)} - {id(x) for n in mine for y in n.orelse for x in ast.walk(y)}
            uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v or isinstance(x, (ast.Global, ast.Nonlocal)) and v in x.names]
            nested = any(a is not b and any(x is b for x in ast.walk(a)) for a in mine for b in mine)
            if nested or any(isinstance(x, ast.AST) and not isinstance(x, ast.Name) or id(x) not in inner for x in uses):
                continue
            for k, n in enumerate(mine):
                for part in [n.target, *n.body]:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id == v:
                            x.id = f"{v}\u00b7\u00b7{k}"


class Program2:
    """the program with the types of each function and its call sites"""

    def __init__(self, prog):
        self.prog = prog
        for m in prog.modules.values():
            if not getattr(m, "renamed", False):
                m.renamed = True
                rename_comprehensions(m.tree)
                rename_loops(m.tree)
        self.funcs = all_funcs(prog)
        self.by_node = {id(f.node): f for f in self.funcs}
        self.types: dict = {}
        self.methods: dict = {}
        for f in self.funcs:
            if f.cls is not None and f.parent is None:
                self.methods.setdefault(f.name, []).append(f)

    def t(self, f):
        k = id(f.node)
        if k not in self.types:
            self.types[k] = Types(self.prog, f, self.t(f.parent) if f.parent is not None else None)
        return self.types[k]

    def constructed(self, c):
        return [m for m in (self.prog.find_method(c, n) for n in ("__new__", "__init__", "__post_init__")) if m is not None]

    def callees(self, f, e):
        """(functions, exact) the call expression may run: by type where known, else by method name"""
        t = self.t(f)
        fs = t.targets(e)
        if not fs and isinstance(e.func, ast.Name):
            for g in self.funcs:
                if g.parent is not None and g.name == e.func.id and (g.parent.node is f.node or f.parent is not None and g.parent.node is f.parent.node):
                    return [g], True
        if fs:
            out = []
            for x in fs:
                out += self.constructed(x) if isinstance(x, Class) else [x]
            return out, True
        if isinstance(e.func, ast.Attribute) and t.of(e.func.value) is None and not e.func.attr.startswith("__"):
            base = e.func.value
            if isinstance(base, ast.Name) and (self.prog.lookup(f.module, base.id) or ("",))[0] in ("mod", "ext"):
                return [], True
            return list(self.methods.get(e.func.attr, [])), False
        return [], True

    def references(self, f, n):
        """functions mentioned without being called (callbacks)"""
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            fake = ast.Call(func=n, args=[], keywords=[])
            return [x for x in self.t(f).targets(fake) if isinstance(x, Func)]
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = self.prog.lookup(f.module, n.id)
            if r and r[0] == "func":
                return [r[1]]
        return []


# --------------------------------------------------------------------------
# exceptions
# --------------------------------------------------------------------------


class Exceptions:
    """classes of the package's exceptions each function may let escape, with one raise site and path for each"""

    def __init__(self, p2):
        self.p2, self.prog = p2, p2.prog
        self.esc: dict = {id(f.node): {} for f in p2.funcs}
        self.sites = 0
        self.calls = 0
        changed = True
        while changed:
            changed = False
            self.sites = self.calls = 0
            for f in p2.funcs:
                out: dict = {}
                self.block(f, f.node.body if isinstance(f.node.body, list) else [ast.Expr(f.node.body)], out, {}, None)
                old = self.esc[id(f.node)]
                for k, w in out.items():
                    if k not in old or w[2] and not old[k][2]:
                        old[k] = w
                        changed = True

    @staticmethod
    def put(out, k, w):
        if k not in out or w[2] and not out[k][2]:
            out[k] = w

    def exc_class(self, f, e, bound):
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(f.module, e.func)
            if r and r[0] == "class":
                return [r[1]]
            return []
        r = self.prog.resolve_expr(f.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "class":
            return [r[1]]
        if isinstance(e, ast.Name):
            if e.id in bound:
                return bound[e.id]
            out = []
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and isinstance(n.value, (ast.Call, ast.Name)) and not (isinstance(n.value, ast.Name) and n.value.id == e.id):
                    out += self.exc_class(f, n.value, bound)
            if not out:
                t = self.p2.t(f).vars.get(e.id)
                out = [self.prog.classes[x[1]] for x in t or () if x[0] == "cls" and x[1] in self.prog.classes]
            return out
        if isinstance(e, ast.IfExp):
            return self.exc_class(f, e.body, bound) + self.exc_class(f, e.orelse, bound)
        return []

    def block(self, f, body, out, bound, handling):
        for s in body:
            self.stmt(f, s, out, bound, handling)

    def stmt(self, f, s, out, bound, handling):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Raise):
            self.sites += 1
            if s.exc is not None:
                self.expr(f, s.exc, out)
            for c in (handling or []) if s.exc is None else self.exc_class(f, s.exc, bound):
                if isinstance(c, tuple):
                    self.put(out, *c)
                else:
                    self.put(out, c.qual, (f"{f.module.rel}:{s.lineno}", (f.qual,), True))
            return
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            inner: dict = {}
            self.block(f, s.body, inner, bound, handling)
            for h in s.handlers:
                names = self.handler(f, h)
                caught = {k: w for k, w in inner.items() if names is None or self.ancestors(k) & names}
                for k in caught:
                    del inner[k]
                b2 = dict(bound)
                if h.name:
                    b2[h.name] = [(k, w) for k, w in caught.items()]
                self.block(f, h.body, out, b2, [(k, w) for k, w in caught.items()])
            for k, w in inner.items():
                self.put(out, k, w)
            self.block(f, s.orelse, out, bound, handling)
            self.block(f, s.finalbody, out, bound, handling)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            inner = {}
            for i in s.items:
                self.expr(f, i.context_expr, inner)
            self.block(f, s.body, inner, bound, handling)
            for i in s.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "suppress":
                    for a in c.args:
                        n = self.handler_names(f, a)
                        for k in [k for k in inner if self.ancestors(k) & n]:
                            del inner[k]
            for k, w in inner.items():
                self.put(out, k, w)
            return
        for name, v in ast.iter_fields(s):
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.stmt):
                    self.stmt(f, x, out, bound, handling)
                elif isinstance(x, ast.match_case):
                    if x.guard is not None:
                        self.expr(f, x.guard, out)
                    self.block(f, x.body, out, bound, handling)
                elif isinstance(x, ast.AST):
                    self.expr(f, x, out)

    def ancestors(self, qual):
        return self.prog.base_names(self.prog.classes[qual]) | {"Exception", "BaseException"}

    def handler_names(self, f, t):
        r = self.prog.resolve_expr(f.module, t)
        if r is None and isinstance(t, ast.Name) and t.id not in f.module.names:
            return {t.id}
        if r and r[0] == "class":
            return {r[1].qual}
        if r and r[0] == "assign" and isinstance(r[1], ast.Tuple):
            return set().union(*(self.handler_names(f, x) for x in r[1].elts))
        return {"Exception"} if r is None else {r[1] if r[0] == "ext" else "?"}

    def handler(self, f, h):
        if h.type is None:
            return None
        return set().union(*(self.handler_names(f, t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])))

    def expr(self, f, e, out):
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Lambda):
                continue
            stack.extend(ast.iter_child_nodes(n))
            gs, exact = [], True
            if isinstance(n, ast.Call):
                self.calls += 1
                gs, exact = self.p2.callees(f, n)
            elif isinstance(n, (ast.Attribute, ast.Name)):
                gs = self.p2.references(f, n)
                if isinstance(n, ast.Attribute) and not gs:
                    exact = False
                    gs = [g for g in (self.p2.methods.get(n.attr, []) if self.p2.t(f).of(n.value) is None else [])
                                if any(d.split(".")[-1] == "property" for d in g.decorators)]
            for g in gs:
                for k, (loc, path, sure) in self.esc.get(id(g.node), {}).items():
                    if len(path) < 30:
                        self.put(out, k, (loc, (f.qual,) + path, sure and exact))

    def of_func(self, f):
        return self.esc.get(id(f.node))

    def of(self, qual):
        for f in self.p2.funcs:
            if f.qual == qual:
                return self.esc[id(f.node)]
        return None


# --------------------------------------------------------------------------
# effects on values a function does not own
# --------------------------------------------------------------------------

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem",
            "appendleft", "extendleft", "popleft", "rotate", "difference_update", "intersection_update", "symmetric_difference_update",
            "__setitem__", "__delitem__", "__iadd__", "__setattr__"}
ARG_MUTATORS = {"random.shuffle", "heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort", "bisect.insort_left", "bisect.insort_right"}
SHALLOW = {"list", "sorted", "tuple", "set", "frozenset", "dict", "reversed", "enumerate", "zip", "filter", "iter", "deque"}
I, S, FRESH = "input", "copy", "fresh"


class Effects:
    """what each function changes: values of the given classes (and what hangs off them) and its parameters"""

    def __init__(self, p2, frozen, scope):
        """frozen: qualified names of the classes whose objects must not change; scope: predicate on functions"""
        self.p2, self.prog, self.frozen = p2, p2.prog, frozen
        self.funcs = [f for f in p2.funcs if scope(f)]
        self.inscope = {id(f.node) for f in self.funcs}
        self.mut: dict = {id(f.node): {} for f in self.funcs}
        self.ret: dict = {id(f.node): set() for f in self.funcs}
        self.found: dict = {}
        self.writes = 0
        self.envs: dict = {}
        for _ in range(12):
            before = (sum(len(x) + sum(x.values()) for x in self.mut.values()), sum(len(x) for x in self.ret.values()))
            self.envs = {}
            self.writes = 0
            for f in self.funcs:
                self.function(f)
            if before == (sum(len(x) + sum(x.values()) for x in self.mut.values()), sum(len(x) for x in self.ret.values())):
                break

    def isfrozen(self, t):
        return any(x[0] == "cls" and x[1] in self.frozen for x in t or ())

    def params(self, f):
        a = f.node.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

    def env(self, f):
        k = id(f.node)
        if k in self.envs:
            return self.envs[k]
        e: dict = {}
        if f.parent is not None and id(f.parent.node) in self.inscope:
            e.update(self.env(f.parent))
        self.envs[k] = e
        t = self.p2.t(f)
        for p in self.params(f):
            e[p] = {("param", p)} | ({I} if self.isfrozen(t.vars.get(p)) else set())
        for _ in range(3):
            seen: dict = {}
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        self.target(f, x, self.orig(f, n.value), n.value, seen)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.target(f, n.target, self.inside(self.orig(f, n.iter)), None, seen)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self.target(f, i.optional_vars, self.orig(f, i.context_expr), None, seen)
            for v, o in seen.items():
                e[v] = o | ({x for x in e.get(v, ()) if isinstance(x, tuple)} if v in self.params(f) else set())
        return e

    def target(self, f, t, o, value, seen):
        if isinstance(t, ast.Name):
            seen.setdefault(t.id, set()).update(o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    self.target(f, x, self.orig(f, value.elts[i]), None, seen)
                else:
                    self.target(f, x, self.inside(o), None, seen)

    @staticmethod
    def inside(o):
        """origins of what a value of these origins contains"""
        return {I if x == S else x for x in o}

    def orig(self, f, e):
        t = self.p2.t(f)
        if isinstance(e, ast.Name):
            env = self.env(f)
            if e.id in env:
                return set(env[e.id])
            return {I} if self.isfrozen(t.of(e)) else {FRESH}
        if isinstance(e, ast.Attribute):
            o = self.inside(self.orig(f, e.value))
            if self.isfrozen(t.of(e)):
                return {I} | {x for x in o if isinstance(x, tuple)}
            if self.isfrozen(t.of(e.value)):
                return {x for x in o if x != FRESH} or {FRESH}
            return {x for x in o if isinstance(x, tuple)} | ({I} if I in o and t.of(e.value) is None else set()) or {FRESH}
        if isinstance(e, ast.Subscript):
            o = self.orig(f, e.value)
            return {S if x == I else x for x in o if not isinstance(x, tuple)} or {FRESH} if isinstance(e.slice, ast.Slice) else self.inside(o)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.orig(f, v) for v in e.values))
        if isinstance(e, ast.IfExp):
            return self.orig(f, e.body) | self.orig(f, e.orelse)
        if isinstance(e, (ast.NamedExpr, ast.Await, ast.Starred)):
            return self.orig(f, e.value)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            o = set().union(*(self.orig(f, x) for x in e.elts)) if e.elts else set()
            return {S} if o & {I, S} else {FRESH}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return {S} if self.orig(f, e.elt) & {I, S} else {FRESH}
        if isinstance(e, ast.DictComp):
            return {S} if (self.orig(f, e.value) | self.orig(f, e.key)) & {I, S} else {FRESH}
        if isinstance(e, ast.BinOp):
            return {S if x == I else x for x in self.orig(f, e.left) | self.orig(f, e.right) if not isinstance(x, tuple)} or {FRESH}
        if isinstance(e, ast.Call):
            return self.call(f, e)
        return {FRESH}

    def call(self, f, e):
        n = ast.unparse(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else ""
        last = n.split(".")[-1]
        if last == "cast" and len(e.args) == 2:
            return self.orig(f, e.args[1])
        if last == "deepcopy":
            return {FRESH}
        if isinstance(e.func, ast.Name) and last in SHALLOW | {"copy", "replace"} or n in ("copy.copy", "dataclasses.replace", "collections.deque"):
            o = set().union(*(self.orig(f, a) for a in e.args)) if e.args else set()
            return {S} if o & {I, S} else {FRESH}
        if isinstance(e.func, ast.Name) and last in ("min", "max", "next") and e.args:
            return self.inside(self.orig(f, e.args[0]))
        gs, exact = self.p2.callees(f, e)
        if gs and not all(g.name in ("__init__", "__post_init__", "__new__") for g in gs):
            out = set()
            for g in gs:
                for x in self.ret.get(id(g.node), {FRESH}):
                    if isinstance(x, tuple):
                        a = self.argument(f, e, g, x[1])
                        out |= self.orig(f, a) if a is not None else {FRESH}
                    else:
                        out.add(x)
            return out or {FRESH}
        if gs:
            return {FRESH}
        if isinstance(e.func, ast.Attribute):
            o = self.orig(f, e.func.value)
            if e.func.attr in ("pop", "get", "popleft", "setdefault", "values", "items", "keys", "__getitem__"):
                return self.inside(o)
            if e.func.attr in ("copy", "union", "difference", "intersection"):
                return {S} if o & {I, S} else {FRESH}
        return {I} if self.isfrozen(self.p2.t(f).of(e)) and not self.constructs(f, e) else {FRESH}

    def constructs(self, f, e):
        r = self.prog.resolve_expr(f.module, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        return bool(r and r[0] == "class")

    def argument(self, f, e, g, name):
        """the expression the call passes for a parameter of g"""
        ps = self.params(g)
        bound = g.cls is not None and g.parent is None and "staticmethod" not in g.decorators
        if bound and ps and name == ps[0]:
            return e.func.value if isinstance(e.func, ast.Attribute) else None
        for k in e.keywords:
            if k.arg == name:
                return k.value
        if name in ps:
            i = ps.index(name) - (1 if bound else 0)
            if 0 <= i < len(e.args) and not any(isinstance(a, ast.Starred) for a in e.args[: i + 1]):
                return e.args[i]
        return None

    def function(self, f):
        k = id(f.node)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                if isinstance(n, ast.AnnAssign) and n.value is None:
                    continue
                while ts:
                    t = ts.pop() if isinstance(ts, list) and not ts is getattr(n, "targets", None) else (ts := list(ts)).pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts += t.elts
                    elif isinstance(t, ast.Starred):
                        ts.append(t.value)
                    elif isinstance(t, (ast.Attribute, ast.Subscript)):
                        self.write(f, n, t.value, ast.unparse(t))
                    elif isinstance(t, ast.Name) and isinstance(n, ast.AugAssign):
                        tt = self.p2.t(f).of(t)
                        if any(x[0] in ("list", "dict", "set") for x in tt or ()):
                            self.write(f, n, t, ast.unparse(n)[:80])
            elif isinstance(n, ast.Call):
                fn = n.func
                name = ast.unparse(fn) if isinstance(fn, (ast.Name, ast.Attribute)) else ""
                gs, exact = self.p2.callees(f, n)
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and not gs:
                    base = fn.value
                    if isinstance(base, ast.Name) and base.id in ("list", "set", "dict", "object") and n.args:
                        base = n.args[0]
                    self.write(f, n, base, ast.unparse(n)[:80])
                elif name in ("setattr", "delattr") and n.args or name in ARG_MUTATORS and n.args:
                    self.write(f, n, n.args[0], ast.unparse(n)[:80])
                for g in gs if exact else ():
                    new = g.name in ("__init__", "__post_init__", "__new__")
                    for p, sure in self.mut.get(id(g.node), {}).items():
                        if new and p == self.params(g)[0]:
                            continue
                        a = self.argument(f, n, g, p)
                        if a is not None:
                            self.write(f, n, a, f"{ast.unparse(n)[:60]} (changes its {p}, see {g.qual})", sure)
            elif isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                self.ret[k] |= self.orig(f, n.value)
        if isinstance(f.node, ast.Lambda):
            self.ret[k] |= self.orig(f, f.node.body)

    def write(self, f, n, base, what, sure=True):
        self.writes += 1
        o = self.orig(f, base)
        for x in o:
            if isinstance(x, tuple) and x[1] in self.params(f):
                m = self.mut[id(f.node)]
                m[x[1]] = m.get(x[1], False) or sure and len(o - {I}) == 1
        if I in o:
            self.found[(f.module.rel, n.lineno, plain(what))] = (f, sure and not o & {FRESH, S})


# --------------------------------------------------------------------------
# state shared between runs
# --------------------------------------------------------------------------

PROCESS_WIDE = {"warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "sys.setrecursionlimit", "os.chdir", "os.putenv",
                "os.umask", "locale.setlocale", "random.seed", "gc.disable", "decimal.setcontext", "logging.basicConfig", "logging.disable",
                "socket.setdefaulttimeout", "sys.setswitchinterval", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "sys.path.append",
                "sys.path.insert"}
VALUE_TYPES = {"int", "str", "bool", "bytes", "float", "none", "type", "enumlit"}


def external(prog, f, e):
    """dotted name of an attribute or name of another library or the interpreter, None when it is something else"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    r = prog.lookup(f.module, e.id)
    if r and r[0] in ("mod", "ext"):
        return ".".join([r[1], *reversed(parts)])
    if r is None and hasattr(builtins, e.id):
        return ".".join([e.id, *reversed(parts)])
    return None


class Shared:
    """constructs by which one run of the library can influence another: (location, function, what, sure)"""

    def __init__(self, p2, skip=lambda f: False):
        self.p2, self.prog = p2, p2.prog
        self.found: list = []
        self.places = 0
        for f in p2.funcs:
            if not skip(f):
                self.function(f)

    def add(self, f, n, what, sure=True):
        self.found.append((f"{f.module.rel}:{n.lineno}", f.qual, what, sure))

    def locals(self, f):
        out = set()
        while f is not None:
            a = f.node.args
            out |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]}
            g = {v for n in own_nodes(f.node) if isinstance(n, ast.Global) for v in n.names}
            out |= {n.id for n in own_nodes(f.node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} - g
            out |= {n.name for n in own_nodes(f.node) if isinstance(n, (ast.FunctionDef, ast.ExceptHandler)) and n.name}
            f = f.parent
        return out

    def mutable_default(self, d):
        return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
            isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter"))

    def is_shared(self, f, e, loc):
        """the expression denotes something that lives as long as the program: a module's or a class's mutable"""
        p = self.prog
        if isinstance(e, ast.Subscript):
            return self.is_shared(f, e.value, loc)
        if isinstance(e, ast.Name) and e.id not in loc:
            r = p.lookup(f.module, e.id)
            return bool(r) and (r[0] == "assign" or r[0] == "class")
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                if e.value.id == "cls" and f.cls is not None and "classmethod" in f.decorators:
                    return True
                if e.value.id not in loc and (p.lookup(f.module, e.value.id) or ("",))[0] == "class":
                    return True
                if e.value.id == "self" and f.cls is not None:
                    a = p.find_class_attr(f.cls, e.attr)
                    return a is not None and not f.cls.is_dataclass and self.mutable_default(a[1]) and not self.instance_attr(f.cls, e.attr)
                if e.value.id not in loc and (p.lookup(f.module, e.value.id) or ("",))[0] == "mod":
                    r = p.resolve_expr(f.module, e)
                    return bool(r) and r[0] == "assign"
            return False if not isinstance(e.value, (ast.Name, ast.Attribute)) else self.is_shared(f, e.value, loc) and not isinstance(e.value, ast.Name)
        return False

    def instance_attr(self, c, name):
        return any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"
                   for k in self.prog.mro(c) for m in k.methods.values() for n in own_nodes(m.node))

    def function(self, f):
        loc = self.locals(f)
        node = f.node
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                x = external(self.prog, f, d.func if isinstance(d, ast.Call) else d)
                if x in ("functools.lru_cache", "functools.cache"):
                    self.places += 1
                    t = self.prog.ann_type(f.module, node.returns)
                    if t is None:
                        self.add(f, node, f"results of {f.name} are kept between runs", False)
                    elif any(k[0] not in VALUE_TYPES and not (k[0] == "cls" and k[1] in self.prog.classes and self.prog.is_enum(self.prog.classes[k[1]])) for k in t):
                        self.add(f, node, f"mutable results of {f.name} are kept between runs")
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *((p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)]:
            if self.mutable_default(d):
                self.places += 1
                use = self.default_escapes(f, p.arg)
                if use is not None:
                    self.add(f, use, f"the default of {p.arg}, shared by all calls, is changed or kept")
        for n in own_nodes(node):
            if isinstance(n, ast.Global) and any(isinstance(x, ast.Name) and x.id in n.names and not isinstance(x.ctx, ast.Load) for x in own_nodes(node)):
                self.places += 1
                self.add(f, n, f"module variable {', '.join(n.names)} is assigned")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]:
                    for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        self.places += 1
                        if isinstance(x, ast.Subscript) and self.is_shared(f, x.value, loc):
                            self.add(f, n, f"{ast.unparse(x)[:60]} is assigned, which all runs share")
                        elif isinstance(x, ast.Attribute):
                            e = external(self.prog, f, x) if not (isinstance(x.value, ast.Name) and x.value.id in loc) else None
                            if e is not None and not e.startswith(self.prog.package):
                                self.add(f, n, f"{e} is assigned, which the whole process shares")
                            elif isinstance(x.value, ast.Name) and (x.value.id == "cls" and "classmethod" in f.decorators or x.value.id not in loc and (self.prog.lookup(f.module, x.value.id) or ("",))[0] in ("class", "mod")):
                                self.add(f, n, f"{ast.unparse(x)[:60]} is assigned, which all runs share")
                        elif isinstance(x, ast.Subscript) and external(self.prog, f, x.value) in ("os.environ", "sys.modules"):
                            self.add(f, n, f"{ast.unparse(x)[:60]} is assigned, which the whole process shares")
            elif isinstance(n, ast.Call):
                self.places += 1
                e = external(self.prog, f, n.func)
                if e in PROCESS_WIDE and not self.inside_catch(f, n):
                    self.add(f, n, f"{e} changes the whole process")
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and self.is_shared(f, n.func.value, loc):
                    self.add(f, n, f"{ast.unparse(n)[:60]} changes what all runs share")

    def inside_catch(self, f, n):
        return any(isinstance(w, ast.With) and any(x is n for x in ast.walk(w)) and any("catch_warnings" in ast.unparse(i.context_expr) for i in w.items)
                   for w in ast.walk(f.node))

    def default_escapes(self, f, p):
        if any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in own_nodes(f.node)):
            return None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == p:
                return n
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == p:
                return n
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p:
                return n
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == p:
                return n
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p and any(isinstance(t, ast.Attribute) for t in n.targets):
                return n
        return None


# --------------------------------------------------------------------------
# sources of non-determinism
# --------------------------------------------------------------------------

UNSTABLE = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "datetime.datetime.now", "datetime.datetime.utcnow",
            "datetime.date.today", "os.urandom", "uuid.uuid1", "uuid.uuid4", "os.getpid", "id", "hash", "os.listdir", "os.scandir", "glob.glob",
            "glob.iglob", "os.walk", "threading.get_ident"}
UNORDERED_OK = {"sorted", "min", "max", "sum", "any", "all", "len", "set", "frozenset", "dict.fromkeys"}
SET_METHODS_OK = {"union", "difference", "intersection", "symmetric_difference", "update", "difference_update", "intersection_update",
                  "symmetric_difference_update", "issubset", "issuperset", "isdisjoint", "add", "discard", "remove", "copy", "clear"}


class Order:
    """where the order of a set, or a value that differs between runs, reaches what is computed: (location, function, what, sure)"""

    def __init__(self, p2, skip=lambda f: False):
        self.p2, self.prog = p2, p2.prog
        self.found: list = []
        self.places = 0
        for f in p2.funcs:
            if not skip(f):
                self.function(f)

    def settype(self, f, e):
        """None: not a set; else True when its order varies between runs, False when its elements' types are not known"""
        t = self.p2.t(f).of(e)
        for x in t or ():
            if x[0] == "set":
                el = x[1]
                if el is None:
                    return False
                return None if all(k[0] in ("int", "bool", "none") for k in el) else True
        return None

    def function(self, f):
        parent: dict = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parent[id(c)] = n
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                self.places += 1
                e = external(self.prog, f, n.func)
                if e is not None and (e in UNSTABLE or e.startswith(("random.", "secrets."))) and not isinstance(self.p2.t(f).vars.get(e.split(".")[0]), frozenset):
                    up = parent.get(id(n))
                    if not (isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("sorted", "len")) and not self.in_hash(f) and not self.compared(n, parent):
                        self.found.append((f"{f.module.rel}:{n.lineno}", f.qual, f"{ast.unparse(n)[:60]} differs between runs", e not in ("id", "hash")))
                if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args:
                    self.report(f, n, n.func.value, "an arbitrary element is taken")
                if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "reversed", "deque") or (
                        isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "fromkeys")):
                    for a in n.args:
                        if not self.consumed(f, n, parent):
                            self.report(f, n, a, "its order is kept")
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if not self.consumed(f, n, parent):
                        self.report(f, n, g.iter, "its order is kept")
            elif isinstance(n, ast.Starred) and isinstance(n.ctx, ast.Load):
                up = parent.get(id(n))
                if not isinstance(up, ast.Set) and not (isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in UNORDERED_OK):
                    self.report(f, n, n.value, "its order is kept")
            elif isinstance(n, ast.For):
                s = self.settype(f, n.iter)
                if s is not None:
                    self.places += 1
                    kind = self.body(f, n)
                    if kind != "ok":
                        self.found.append((f"{f.module.rel}:{n.lineno}", f.qual, plain(f"loop over the set {ast.unparse(n.iter)[:60]}, its order is kept"), bool(s) and kind == "ordered"))

    def in_hash(self, f):
        return f.name in ("__hash__", "__eq__", "__repr__")

    def compared(self, n, parent):
        up = parent.get(id(n))
        return isinstance(up, ast.Compare) or isinstance(up, ast.Subscript) and up.slice is n or isinstance(up, (ast.Set, ast.SetComp)) or isinstance(
            up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr in ("add", "get", "discard") or isinstance(up, (ast.DictComp, ast.Dict))

    def consumed(self, f, n, parent):
        """the order of what n yields does not matter to what it is given to"""
        up = parent.get(id(n))
        while isinstance(up, (ast.GeneratorExp,)):
            n, up = up, parent.get(id(up))
        if isinstance(up, ast.Call) and n in up.args:
            if isinstance(up.func, ast.Name) and up.func.id in UNORDERED_OK:
                return True
            if isinstance(up.func, ast.Attribute) and up.func.attr in SET_METHODS_OK:
                return True
            if isinstance(up.func, ast.Name) and up.func.id in ("list", "tuple", "iter", "filter", "map"):
                return self.consumed(f, up, parent)
        if isinstance(up, ast.Compare):
            return all(isinstance(o, (ast.In, ast.NotIn)) for o in up.ops)
        if isinstance(up, ast.comprehension):
            return False
        if isinstance(up, ast.Assign) and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name):
            v = up.targets[0].id
            uses = [x for x in own_nodes(f.node) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
            return all(self.use_ok(x, parent) for x in uses)
        return False

    def use_ok(self, x, parent):
        up = parent.get(id(x))
        if isinstance(up, ast.Call) and x in up.args and isinstance(up.func, ast.Name) and up.func.id in UNORDERED_OK:
            return True
        if isinstance(up, ast.Compare) and x in up.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in up.ops):
            return True
        if isinstance(up, ast.Attribute) and up.attr == "sort":
            return True
        return isinstance(up, (ast.UnaryOp, ast.If, ast.BoolOp)) or any(
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "sort"
            and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x.id for s in self._all_stmts(parent, x))

    def _all_stmts(self, parent, x):
        n = x
        while id(n) in parent:
            n = parent[id(n)]
        return [s for s in ast.walk(n) if isinstance(s, ast.stmt)]

    def report(self, f, n, e, what):
        s = self.settype(f, e)
        if s is not None:
            self.places += 1
            self.found.append((f"{f.module.rel}:{n.lineno}", f.qual, plain(f"set {ast.unparse(e)[:60]}: {what}"), bool(s) and not self.worklist(f, n)))

    def worklist(self, f, n):
        """n is put on a list that is only a stack or queue of things to visit: what is visited first need not matter"""
        for c in own_nodes(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "appendleft", "extendleft", "insert") and isinstance(
                    c.func.value, ast.Name) and any(x is n for x in ast.walk(c)) and self.only_visited(f, c.func.value.id):
                return True
            if isinstance(c, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and c.value is not None and any(x is n for x in ast.walk(c.value)):
                t = c.targets[0] if isinstance(c, ast.Assign) else c.target
                if isinstance(t, ast.Name) and self.only_visited(f, t.id):
                    return True
        return False

    def only_visited(self, f, v):
        popped = False
        up = {id(c): n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
        for x in own_nodes(f.node):
            if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load):
                p = up.get(id(x))
                if isinstance(p, ast.Attribute) and p.attr in ("pop", "popleft"):
                    popped = True
                elif not (isinstance(p, ast.Attribute) and p.attr in ("append", "extend", "appendleft", "extendleft", "insert", "clear", "reverse")
                          or isinstance(p, (ast.While, ast.If, ast.UnaryOp, ast.Compare, ast.BoolOp)) or isinstance(p, ast.Call) and isinstance(p.func, ast.Name)
                          and p.func.id in ("len", "bool")):
                    return False
        return popped

    def body(self, f, loop):
        """ok: the statements commute; ordered: they build something in order; else unknown"""
        kind = "ok"
        stack = list(loop.body)
        while stack:
            s = stack.pop()
            if isinstance(s, ast.If):
                stack += s.body + s.orelse
            elif isinstance(s, (ast.Pass, ast.Continue)):
                pass
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                a = s.value.func.attr
                if a in ("add", "discard") or isinstance(s.value.func.value, ast.Name) and self.p2.t(f).of(s.value.func.value) and any(x[0] == "set" for x in self.p2.t(f).of(s.value.func.value)):
                    continue
                if a in ("append", "extend", "insert", "appendleft") and isinstance(s.value.func.value, ast.Name):
                    v = s.value.func.value
                    if self.sorted_later(f, v.id):
                        continue
                    if self.only_visited(f, v.id):
                        kind = "unknown" if kind == "ok" else kind
                        continue
                    kind = "ordered"
                else:
                    kind = "unknown" if kind == "ok" else kind
            elif isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
                pass
            elif isinstance(s, ast.Raise):
                pass
            elif isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.BitOr, ast.BitAnd)):
                pass
            elif isinstance(s, (ast.Expr,)) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                kind = "ordered"
            else:
                kind = "unknown" if kind == "ok" else kind
        return kind

    def sorted_later(self, f, v):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and isinstance(n.func.value, ast.Name) and n.func.value.id == v:
                    return True
                if isinstance(n.func, ast.Name) and n.func.id in UNORDERED_OK and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == v:
                    return True
        return False
