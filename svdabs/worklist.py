"""Worklist closures: a loop that pops an element, skips it when already seen, records it and pushes its successors
computes the set reachable from the initial worklist.  The step and the start of such a loop are cut out as functions of
their own, so that the successors can be compared with a reference; termination follows from the seen test."""
from __future__ import annotations

import ast
import copy

from .program import Func


class Shape:
    def __init__(self, init, step, again, pair):
        self.init, self.step, self.again, self.pair = init, step, again, pair


def _names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class _Cut(ast.NodeTransformer):
    def __init__(self, ret):
        self.ret = ret
        self.depth = 0

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def visit_Continue(self, n):
        return copy.deepcopy(self.ret) if self.depth == 0 else n

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef


def split(f: Func):
    """Shape of a worklist function, or None when it is not one"""
    loops = [n for n in ast.walk(f.node) if isinstance(n, ast.While)]
    if len(loops) != 1 or loops[0] not in f.node.body or loops[0].orelse:
        return None
    w = loops[0]
    if any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(w)):
        return None
    pop = None
    for s in w.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) \
                and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("pop", "popleft") and isinstance(s.value.func.value, ast.Name):
            pop = s
            break
        return None
    if pop is None:
        return None
    work, cur = pop.value.func.value.id, pop.targets[0].id
    if work not in _names(w.test):
        return None
    i = f.node.body.index(w)
    rets = [s for s in f.node.body[i + 1:] if isinstance(s, ast.Return)]
    if len(rets) != 1 or not isinstance(rets[0].value, ast.Name):
        return None
    out = rets[0].value.id
    tested = {c.id for n in ast.walk(w) if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn))
              and isinstance(n.left, ast.Name) and n.left.id == cur for c in n.comparators if isinstance(c, ast.Name)}
    seen = out if out in tested else next(iter(tested)) if len(tested) == 1 else None
    if seen is None or seen in (work, cur) or out in (work, cur):
        return None
    # what is known besides which elements were seen (how many, say) would be lost
    fine = {id(c) for n in ast.walk(w) if isinstance(n, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops) for c in n.comparators}
    fine |= {id(n.func.value) for n in ast.walk(w) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
             and n.func.attr in ("add", "update", "append", "extend", "insert")}
    if any(isinstance(n, ast.Name) and n.id in (seen, out) and isinstance(n.ctx, ast.Load) and id(n) not in fine for n in ast.walk(w)):
        return None
    loc = dict(lineno=w.lineno, col_offset=0, end_lineno=w.lineno, end_col_offset=0)

    def parse(src):
        b = ast.parse(src).body
        for n in b:
            for x in ast.walk(n):
                for k, v in loc.items():
                    if k in x._attributes:
                        setattr(x, k, v)
        return b

    def make(suffix, body, extra):
        n = copy.deepcopy(f.node)
        n.name = f.node.name + suffix
        n.body = body
        n.returns = None
        for e in extra:
            a = ast.arg(arg=e, annotation=ast.Name(id="str", ctx=ast.Load()))
            ast.copy_location(a, w)
            ast.fix_missing_locations(a)
            n.args.args.append(a)
        return Func(n, f.module, f.cls, f.qual + suffix)

    first = parse(f"return {work}")[0]
    ret = parse(f"return {work}" if out == seen else f"return {work}, {out}")[0]
    fresh = "" if out == seen else f"\n{out} = []"
    init = make("<start>", copy.deepcopy(f.node.body[:i]) + [first], [])
    rest = [_Cut(ret).visit(copy.deepcopy(s)) for s in w.body if s is not pop]
    pre = [s for s in f.node.body[:i] if not (_names(s) & {work, seen, out}) and not (_assigned(s) & {cur}) and not any(isinstance(x, ast.Return) for x in ast.walk(s))]
    tail = [copy.deepcopy(ret)]
    step = make("<step>", copy.deepcopy(pre) + parse(f"{work} = []\n{seen} = set(){fresh}") + rest + tail, [cur])
    again = make("<again>", copy.deepcopy(pre) + parse(f"{work} = []\n{seen} = {{{cur}}}{fresh}") + copy.deepcopy(rest) + copy.deepcopy(tail), [cur])
    return Shape(init, step, again, out != seen)


def _assigned(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Parts:
    def __init__(self, before, step, after, carried):
        self.before, self.step, self.after, self.carried = before, step, after, carried


class _Cut2(_Cut):
    def __init__(self, ret, stop):
        super().__init__(ret)
        self.stop = stop

    def visit_Break(self, n):
        return copy.deepcopy(self.stop) if self.depth == 0 else n


def cut(f: Func):
    """the one while loop of a function, as three functions: what precedes it, one round, what follows it"""
    loops = [n for n in f.node.body if isinstance(n, ast.While)]
    if len(loops) != 1 or loops[0].orelse:
        return None
    w = loops[0]
    if any(isinstance(n, ast.Return) for n in ast.walk(w)) or any(isinstance(n, ast.While) and n is not w for n in ast.walk(w)):
        return None
    i = f.node.body.index(w)
    params = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
    first = []
    for s in f.node.body[:i]:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in first:
                first.append(n.id)
    later = {n.id for s in [w] + f.node.body[i + 1:] for n in ast.walk(s) if isinstance(n, ast.Name)}
    after = {n.id for s in f.node.body[i + 1:] for n in ast.walk(s) if isinstance(n, ast.Name)}
    carried = sorted(n for n in first if n in later and n not in params and (n in after or not _fresh(w, n)))
    loc = dict(lineno=w.lineno, col_offset=0, end_lineno=w.lineno, end_col_offset=0)

    def parse(src):
        b = ast.parse(src).body
        for n in b:
            for x in ast.walk(n):
                for k, v in loc.items():
                    if k in x._attributes:
                        setattr(x, k, v)
        return b

    anns = {s.target.id: s.annotation for s in f.node.body[:i] if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}

    def make(suffix, body, extra):
        n = copy.deepcopy(f.node)
        n.name = f.node.name + suffix
        n.body = body
        if suffix != "<after>":
            n.returns = None
        for e in extra:
            n.args.args.append(ast.copy_location(ast.arg(arg=e, annotation=anns.get(e)), w))
        ast.fix_missing_locations(n)
        return Func(n, f.module, f.cls, f.qual + suffix)

    go = parse("return (" + "".join(c + ", " for c in carried) + ")")[0]
    stop = parse("return None")[0]
    body = [_Cut2(go, stop).visit(copy.deepcopy(s)) for s in w.body]
    test = ast.copy_location(ast.If(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(w.test)), w), body=[copy.deepcopy(stop)], orelse=[]), w)
    before = make("<before>", copy.deepcopy(f.node.body[:i]) + [copy.deepcopy(go)], [])
    step = make("<round>", [test] + body + [copy.deepcopy(go)], carried)
    after = make("<after>", copy.deepcopy(f.node.body[i + 1:]) or parse("return None"), carried)
    return Parts(before, step, after, carried)


def _fresh(w, name):
    """every round sets the name before it looks at it"""
    def loads(n):
        return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) for x in ast.walk(n))

    if loads(w.test):
        return False
    for s in w.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return not loads(s.value)
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
            return not loads(s.value)
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)):
            return False
    return False
