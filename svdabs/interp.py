"""Interprocedural gated value-flow interpreter over the syntax tree.

Flow-sensitive abstract interpretation: branches are joined (values become gated
by the branch condition), calls to functions of the tree are inlined up to
recursion (a recursive call becomes an uninterpreted application, so a function
is decided once and inductively), loops are summarised over one generic element
of the iterated collection (never unrolled unless the collection is a literal),
and external raisers of interest fork into normal and exceptional flow.
"""
from __future__ import annotations

import ast
import builtins

from .core import *  # noqa: F401,F403
from .core import _atoms  # noqa: F401
from . import core, theory
from .program import Class, Func, Program

MAX_DEPTH = 40


class Unreachable(Exception):
    pass


class Budget(Exception):
    pass


class HObj:
    __slots__ = ("kind", "cls", "attrs", "items", "order", "ctx", "site", "proto", "extra")

    def __init__(self, kind, cls=None, attrs=None, items=(), order=None, ctx=(), site=None, proto=None, extra=None):
        self.kind, self.cls, self.attrs, self.items = kind, cls, attrs or {}, items
        self.order, self.ctx, self.site, self.proto, self.extra = order, ctx, site, proto, extra

    def with_(self, **kw):
        o = HObj(self.kind, self.cls, self.attrs, self.items, self.order, self.ctx, self.site, self.proto, self.extra)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def set_attr(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return self.with_(attrs=a)

    def same(self, o):
        return self is o or (
            self.kind == o.kind and self.attrs == o.attrs and self.items == o.items and self.order == o.order
            and self.proto == o.proto and self.extra == o.extra
        )


def _some_slice(items, lo, hi):
    """a slice of a list whose items are there under conditions"""
    def counted(its):
        """for each item: the condition that less than n of the items before it are there"""
        cnt, out = [TRUE], []
        for i in its:
            out.append(list(cnt))
            g = i.args[0].args[0]
            cnt = [bor(band(cnt[j], bnot(g)) if j < len(cnt) else FALSE, band(cnt[j - 1], g) if j else FALSE) for j in range(len(cnt) + 1)]
        return lambda k, n: bor(*out[k][:n])

    before, after, m = counted(items), counted(items[::-1]), len(items)
    out = []
    for k, i in enumerate(items):
        g = i.args[0].args[0]
        if lo is not None:
            g = band(g, bnot(before(k, lo)) if lo >= 0 else after(m - 1 - k, -lo))
        if hi is not None:
            g = band(g, before(k, hi) if hi >= 0 else bnot(after(m - 1 - k, -hi)))
        if g != FALSE:
            out.append(mk("one", bterm(g), i.args[1]))
    return out


class State:
    __slots__ = ("pc", "envs", "heap", "store")

    def __init__(self, pc=TRUE):
        self.pc = pc
        self.envs = {}
        self.heap = {}
        self.store = {}

    def copy(self, pc=None):
        s = State(self.pc if pc is None else pc)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        return s

    def assign_from(self, o):
        self.pc, self.envs, self.heap, self.store = o.pc, o.envs, o.heap, o.store


class Effect:
    __slots__ = ("kind", "guard", "ctx", "data", "loc", "fn", "stack", "rel", "pcs")

    def __init__(self, kind, guard, ctx, data, loc, fn, stack):
        self.rel, self.pcs = guard, ()
        self.kind, self.guard, self.ctx, self.data, self.loc, self.fn, self.stack = kind, guard, ctx, data, loc, fn, stack

    def __repr__(self):
        return f"<{self.kind} {self.data} if {showb(self.guard)} @{self.loc}>"


class Outcome:
    __slots__ = ("st", "val", "loc", "ctx", "guard", "fn", "stack")

    def __init__(self, st, val, loc, ctx, guard, fn, stack):
        self.st, self.val, self.loc, self.ctx, self.guard, self.fn, self.stack = st, val, loc, ctx, guard, fn, stack


class Frame:
    def __init__(self, func, fid, module, cls):
        self.func, self.fid, self.module, self.cls = func, fid, module, cls
        self.returns = []
        self.loops = []  # each: {'brk':[], 'cont':[]}
        self.handling = []
        self.yield_oid = None
        self.keep = False


def guard_item(it, g):
    ng = band(it.args[0].args[0], g)
    return mk(it.op, bterm(ng), *it.args[1:])


EXT_EXC_BASES = {
    "lxml.etree.XMLSyntaxError": {"lxml.etree.ParseError", "lxml.etree.LxmlSyntaxError", "lxml.etree.LxmlError",
                                  "lxml.etree.Error", "SyntaxError", "Exception", "BaseException"},
    "lxml.etree.DocumentInvalid": {"lxml.etree.LxmlError", "lxml.etree.Error", "Exception", "BaseException"},
    "rustworkx.DAGWouldCycle": {"Exception", "BaseException"},
}


_grown: dict = {}
_grown_keep: list = []


def prefixes(e, src, carried):
    """what earlier iterations left behind, location by location: (term at the start of an iteration, term after the loop).

    carried maps the placeholder of a location to (scalar?, what one iteration makes of it, value before the loop);
    locations that depend on one another are numbered by their own shape, not by where they live"""
    out, last = {}, {}
    if not carried:
        return out, last
    blank = Subst({L: mk("self") for L in carried})
    shape = {L: tuple(blank.term(i) for i in c[1]) for L, c in carried.items()}
    uses = {L: {M for M in carried if any(occurs(M, i) for i in c[1])} for L, c in carried.items()}
    for L, (scalar, its, init) in carried.items():
        group, todo = {L}, [L]
        while todo:
            for M in uses[todo.pop()]:
                if M not in group:
                    group.add(M)
                    todo.append(M)
        others = sorted(group - {L}, key=lambda M: (carried[M][0], [i.uid for i in shape[M]]))
        if any(shape[a] == shape[b] and carried[a][0] == carried[b][0] for a, b in zip(others, others[1:])):
            continue
        sub0 = Subst({L: mk("self"), **{M: mk("self", n) for n, M in enumerate(others)}})
        rest = tuple((tuple(sub0.term(i) for i in carried[M][1]), carried[M][2]) for M in others)
        mine = tuple(sub0.term(i) for i in its)
        if scalar:
            out[L] = mk("carry", e, src, mine, init, *([rest] if rest else []), ty=L.ty)
            last[L] = mk("lastv", e, src, mine, init, *([rest] if rest else []), ty=L.ty)
        elif not its:
            out[L] = mk("lst", "list", init, ty=L.ty)
        else:
            t = mk("prefix", e, src, mine, *([rest] if rest else []), ty=L.ty)
            out[L] = mk("lst", "list", init + (splat(t),), ty=L.ty) if init else t
    return out, last


def _parts_only(order):
    return all(isinstance(x, tuple) and x[0] == "part" for x in order or ())


def joined_order(orders):
    """the order of a list put together from lists of these orders: parts of it are sorted"""
    out = ()
    for o in orders:
        for x in o or ():
            if not (isinstance(x, tuple) and x[0] == "part"):
                x = ("part", tuple(y for y in o if _parts_only((y,)) is False))
            if x not in out:
                out += (x,)
    return out or None


class Interp:
    def __init__(self, prog: Program, opaque=(), max_steps=3000000):
        self.prog = prog
        self.opaque = set(opaque)
        self.traced = set()
        self.recursed: set = set()
        self.untyped: set = set()
        self.trace = None
        self.log: list[Effect] = []
        self.raise_stack: list[list[Outcome]] = [[]]
        self.ctx: tuple = ()  # ((e, src), ...)
        self.rec_limit = 1  # activations of one function before a call of it stays symbolic
        self.callstack: list = []
        self.fncache: dict = {}
        self.fntab: dict = {}
        self.fid = 0
        self.oid = 0
        self.steps = 0
        self.max_steps = max_steps
        self.stmts_seen: set = set()
        self.funcs_seen: set = set()
        self.modcache: dict = {}
        self.catching: list = []  # names caught by enclosing handlers (list of lists)
        self.notes: set = set()
        self._enum_active = False
        self.expand_enums = False  # a lookup of an arbitrary text among the members of an enumeration is a choice of one
        self.small = None  # bounded analysis: the lists the code is given have this many elements
        self.sizes: dict = {}
        self.coarse = False  # do not keep apart the classes of uncaught exceptions raised in loops

    # ---------------------------------------------------------------- utils
    def note(self, s, node=None, fr=None):
        self.notes.add(f"{s} at {self.loc(node, fr)}" if node is not None else s)

    def loc(self, node, fr):
        m = fr.module.rel if fr is not None else "?"
        return f"{m}:{getattr(node, 'lineno', 0)}"

    def eff(self, kind, st, data, node, fr):
        self.log.append(Effect(kind, st.pc, self.ctx, data, self.loc(node, fr), fr.func.qual if fr.func else "<module>",
                               tuple(f.qual for f in self.callstack)))

    def record(self, st, name, vals, kwargs=None):
        """a call with an effect outside the analysed state: the sequence of these calls is observable"""
        if self.trace is None or self.trace not in st.heap:
            return
        vals = [self._meaning(v, st) for v in vals]
        t = self.tuple_(st, [C(name)] + list(vals))
        h = st.heap[self.trace]
        st.heap[self.trace] = h.with_(items=h.items + (one(TRUE, t),))

    def _meaning(self, v, st):
        """a function handed over is known by what it makes of an arbitrary argument"""
        if isinstance(v, T) and v.op == "fn" and v in self.fntab:
            f = self.fntab[v][0]
            a = f.node.args
            ps = a.posonlyargs + a.args
            if len(ps) - len(a.defaults) == 1:
                x = sym("argument", self.prog.ann_type(f.module, ps[0].annotation) if ps[0].annotation is not None else None)
                try:
                    return self.tuple_(st, [C("function"), self.call(v, [x], {}, st, Frame(None, -1, f.module, f.cls), f.node)])
                except Unreachable:
                    return C("function")
        return v

    def mutated(self, st, recv, name, args):
        if "mutate" in self.traced:
            self.record(st, f"{name} {show(self.freeze(recv, st))[-120:]}", [recv] + list(args))

    def alloc(self, st, kind, **kw):
        self.oid += 1
        r = mk("ref", self.oid)
        st.heap[r] = HObj(kind, ctx=tuple(c[0] for c in self.ctx), **kw)
        return r

    def new_list(self, st, items=(), kind="list", order=None, site=None):
        return self.alloc(st, kind, items=tuple(items), order=order, site=site)

    def tuple_(self, st, vals):
        return self.new_list(st, [one(TRUE, v) for v in vals], kind="tuple")

    # ---------------------------------------------------------------- freeze
    def freeze(self, v, st, depth=0, seen=()):
        if isinstance(v, G):
            return gterm(gate([(self.freeze_b(g, st, depth, seen), self.freeze(l, st, depth, seen)) for g, l in v.alts]))
        t = v
        if t.op == "ref":
            o = st.heap.get(t)
            if o is None:
                return t
            if t in seen:
                return mk("back", o.cls.qual if o.cls else o.kind)
            seen = seen + (t,)
            if o.kind in ("list", "tuple", "set", "dict"):
                if o.kind in ("list", "tuple") and len(o.items) == 1 and o.items[0].args[0].args[0] == TRUE:
                    it = o.items[0]
                    base = None
                    if it.op == "splat":
                        base = it.args[1]
                    elif it.op == "each":
                        e, src, inner = it.args[1:]
                        if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0].args[0] == TRUE and inner[0].args[1] is e:
                            base = src
                    if base is not None and o.kind == "list":
                        return self._ordered(base, o.order)
                items = tuple(self.freeze_item(i, st, depth + 1, seen) for i in o.items)
                if o.kind == "list" and all(i.op == "one" and i.args[0].args[0] == TRUE for i in items) and o.order is None:
                    return mk("lst", "list", items, ty=T_LIST(None))
                if o.kind == "list":
                    return self._ordered(mk("lst", "list", items, ty=T_LIST(None)), o.order)
                return mk("lst", o.kind, items, ty=ty((("list" if o.kind == "tuple" else o.kind), None)) if o.kind != "dict" else ty(("dict", None, None)))
            if o.kind == "inst":
                if depth > 6:
                    return mk("obj", o.cls.qual, "...", o.site)
                at = tuple((k, self.freeze(x, st, depth + 1, seen)) for k, x in sorted(o.attrs.items()))
                base = (self.freeze(o.proto, st, depth + 1, seen),) if o.proto is not None else ()
                return mk("obj", o.cls.qual, at, *base)
            if o.kind == "xml":
                return mk("xmlel", self.freeze(o.attrs["tag"], st), tuple(self.freeze_item(i, st, depth + 1, seen) for i in o.extra),
                          tuple(self.freeze_item(i, st, depth + 1, seen) for i in o.items), self.freeze(o.attrs["text"], st))
            return mk("heap", o.kind)
        if t.op == "g":
            return self.freeze(val_of(t), st, depth, seen)
        if t.op in ("c", "sym", "enum", "cls", "fn", "b", "loopin"):
            return t  # the value a location has at the start of an iteration is named by the location
        if any(isinstance(a, T) and a.op == "ref" for a in t.args):
            return mk(t.op, *[self.freeze(a, st, depth, seen) if isinstance(a, T) else a for a in t.args], ty=t.ty)
        return t

    def freeze_b(self, b, st, depth=0, seen=()):
        return b

    def _ordered(self, base, order):
        if order is None:
            return base
        for o in order:
            if o != "rev" and base.op == "range" and len(base.args) < 3 and o[0] == mk("key", "e") and o[1] == bterm(FALSE):
                continue  # already in order
            base = mk("reversed", base, ty=base.ty) if o == "rev" else mk("sorted", base, *o, ty=base.ty)
        return base

    def freeze_item(self, it, st, depth=0, seen=()):
        if it.op == "one":
            return mk("one", it.args[0], self.freeze(it.args[1], st, depth, seen))
        if it.op == "each":
            return mk("each", it.args[0], it.args[1], it.args[2], tuple(self.freeze_item(i, st, depth, seen) for i in it.args[3]))
        if it.op == "kv":
            return mk("kv", it.args[0], self.freeze(it.args[1], st, depth, seen), self.freeze(it.args[2], st, depth, seen))
        if it.op == "splat":
            return mk("splat", it.args[0], self.freeze(it.args[1], st, depth, seen))
        return it

    # ---------------------------------------------------------------- merging
    def merge(self, states):
        states = [s for s in states if s is not None and s.pc != FALSE]
        if not states:
            return None
        out = states[0]
        for s in states[1:]:
            out = self.merge2(out, s)
        return out

    def merge2(self, a, b):
        if a is b:
            return a
        pc = bor(a.pc, b.pc)
        c = restrict(a.pc, pc)
        if c == TRUE and a.pc != pc:
            c = a.pc
        # try the complement form if it is simpler
        out = State(pc)
        unb = mk("unbound")
        for fid in list(a.envs.keys()) + [k for k in b.envs if k not in a.envs]:
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                out.envs[fid] = dict(ea if ea is not None else eb)
                continue
            e = {}
            for k in list(ea) + [x for x in eb if x not in ea]:
                va, vb = ea.get(k, unb), eb.get(k, unb)
                e[k] = va if va is vb else self._vm(c, va, vb, pc)
            out.envs[fid] = e
        for r in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            oa, ob = a.heap.get(r), b.heap.get(r)
            if oa is None or ob is None or oa is ob:
                out.heap[r] = oa if oa is not None else ob
            else:
                out.heap[r] = self._hm(c, oa, ob, pc)
        for k in list(a.store) + [x for x in b.store if x not in a.store]:
            va = a.store.get(k) if k in a.store else self.sym_attr(k[0], k[1])
            vb = b.store.get(k) if k in b.store else self.sym_attr(k[0], k[1])
            out.store[k] = va if va is vb else self._vm(c, va, vb, pc)
        return out

    def _vm(self, c, va, vb, pc):
        if not isinstance(va, G) and not isinstance(vb, G) and va is vb:
            return va
        return vrestrict(vite(c, va, vb), pc)

    def _hm(self, c, oa, ob, pc):
        if oa.same(ob):
            return oa
        attrs = {}
        for k in list(oa.attrs) + [x for x in ob.attrs if x not in oa.attrs]:
            va, vb = oa.attrs.get(k, mk("unbound")), ob.attrs.get(k, mk("unbound"))
            attrs[k] = va if va is vb else self._vm(c, va, vb, pc)
        o = oa.with_(attrs=attrs)
        if oa.items != ob.items:
            o.items = self._im(c, oa.items, ob.items)
        if oa.extra != ob.extra and oa.kind == "xml":
            o.extra = self._im(c, oa.extra, ob.extra)
        if oa.order != ob.order:
            x, y = oa.order or (), ob.order or ()
            o.order = x + tuple(p for p in y if p not in x) if _parts_only(x) and _parts_only(y) else ((mk("mixed"),),)
        return o

    def _im(self, c, ia, ib):
        n = 0
        while n < len(ia) and n < len(ib) and ia[n] is ib[n]:
            n += 1
        out = list(ia[:n])
        ta, tb = ia[n:], ib[n:]
        # pairwise same-value items
        out += [guard_item(x, c) for x in ta if x.op in ("one", "each", "splat", "kv")] + [x for x in ta if x.op not in ("one", "each", "splat", "kv")]
        nc = bnot(c)
        out += [guard_item(x, nc) for x in tb if x.op in ("one", "each", "splat", "kv")] + [x for x in tb if x.op not in ("one", "each", "splat", "kv")]
        return tuple(x for x in out if x.args and not (isinstance(x.args[0], T) and x.args[0].op == "b" and x.args[0].args[0] == FALSE))

    # ---------------------------------------------------------------- symbolic attrs
    def sym_attr(self, t, name):
        return self.sized(mk("attr", t, name, ty=self.attr_ty(t, name)))

    def sized(self, t, depth=0):
        """an arbitrary list, or in a bounded analysis one of few arbitrary elements: the lists met have `small` many in turn"""
        if self.small is None or t.ty is None or len(t.ty) != 1 or depth > 3:
            return t
        a = next(iter(t.ty))
        if a[0] in ("list", "set"):
            n = self.sizes.setdefault(t, self.small[len(self.sizes) % len(self.small)])
            return mk("lst", a[0], tuple(one(TRUE, self.sized(mk("nth", t, i, ty=a[1]), depth + 1)) for i in range(n)), ty=t.ty)
        if a[0] == "tuple" and a[1] and len(a[1]) > 1 and not any(x is Ellipsis for x in a[1]):
            return mk("lst", "tuple", tuple(one(TRUE, self.sized(mk("nth", t, i, ty=x), depth + 1)) for i, x in enumerate(a[1])), ty=t.ty)
        return t

    def attr_ty(self, t, name):
        if t.ty is None:
            return None
        out = frozenset()
        for a in t.ty:
            if a == ("none",):
                continue
            if a[0] != "cls":
                return None
            c = self.prog.classes.get(a[1])
            if c is None:
                return None
            if self.prog.is_enum(c):
                if name == "value":
                    out |= self.enum_value_ty(c)
                    continue
                if name == "name":
                    out |= T_STR
                    continue
                return None
            x = self.prog.attr_type(c, name)
            if x is None:
                if len([b for b in t.ty if b != ("none",)]) > 1:
                    continue
                return None
            out |= x
        return out or None

    def enum_value_ty(self, c):
        out = set()
        for n, e in self.prog.enum_members(c):
            out.add((type(e.value).__name__,) if isinstance(e, ast.Constant) else ("int",))
        return frozenset(out)

    # ---------------------------------------------------------------- truth
    def truth(self, v, st):
        out = FALSE
        for g, l in alts(v):
            out = bor(out, band(g, self.truth_leaf(l, st)))
        return out

    def truth_leaf(self, t, st):
        o = t.op
        if o == "c":
            return TRUE if cval(t) else FALSE
        if o == "g":
            return self.truth(val_of(t), st)
        if o == "ref":
            h = st.heap[t]
            if h.kind in ("list", "tuple", "set", "dict"):
                r = FALSE
                for it in h.items:
                    r = bor(r, self.item_ne(it))
                return r
            if h.kind == "xml":
                r = FALSE
                for it in h.items:
                    r = bor(r, self.item_ne(it))
                return r
            if h.kind == "inst" and h.cls is not None:
                if self.prog.find_method(h.cls, "__bool__") or self.prog.find_method(h.cls, "__len__"):
                    return atom_bdd(mk("tru", t))
            return TRUE
        if o in ("enum", "fn", "cls", "mod", "meth", "bm", "bi", "exc", "partial", "obj"):
            return TRUE
        if o in ("not",):
            return bnot(self.truth_leaf(t.args[0], st))
        if o == "aff":
            return bnot(eq0(t))
        if o == "lst" or o in ("sorted", "reversed", "findall", "children"):
            return nonempty(t)
        if t.ty is not None:
            r = FALSE
            rest = [a for a in t.ty if a != ("none",)]
            nn = bnot(is_none(t))
            if not rest:
                return FALSE
            if all(a[0] in ("cls", "match", "exc", "type", "xmlq") for a in rest):
                for a in rest:
                    if a[0] == "cls":
                        c = self.prog.classes.get(a[1])
                        if c and (self.prog.find_method(c, "__bool__") or self.prog.find_method(c, "__len__")):
                            return atom_bdd(mk("tru", t))
                return nn
            if all(a == ("int",) for a in rest):
                return band(nn, bnot(eq0(t)))
            if all(a == ("str",) for a in rest):
                return band(nn, bnot(eq_leaf(t, C(""))))
            if all(a[0] in ("list", "set", "dict", "tuple") for a in rest):
                return band(nn, nonempty(t))
            if all(a == ("xml",) for a in rest):
                return band(nn, nonempty(mk("children", t, ty=T_LIST(T_XML))))
            if all(a == ("bool",) for a in rest):
                return band(nn, atom_bdd(mk("tru", t)))
        return band(bnot(is_none(t)), atom_bdd(mk("tru", t)))

    def item_ne(self, it):
        if it.op == "one" or it.op == "kv":
            return it.args[0].args[0]
        if it.op == "each":
            return band(it.args[0].args[0], exists(it.args[1], it.args[2], bor(*[self.item_ne(x) for x in it.args[3]])))
        if it.op == "splat":
            return band(it.args[0].args[0], nonempty(it.args[1]))
        return atom_bdd(mk("nonempty", it))

    def isnone(self, v):
        out = FALSE
        for g, l in alts(v):
            out = bor(out, band(g, is_none(l) if l.op != "unbound" else FALSE))
        return out

    # ---------------------------------------------------------------- equality etc.
    def eq(self, a, b, st):
        out = FALSE
        for g1, l1 in alts(a):
            for g2, l2 in alts(b):
                g = band(g1, g2)
                if g != FALSE:
                    out = bor(out, band(g, self.eq_leaves(l1, l2, st)))
        return out

    def eq_leaves(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == "g" or b.op == "g":
            return self.eq(val_of(a), val_of(b), st)
        if a.op == "ref" or b.op == "ref":
            ha = st.heap.get(a) if a.op == "ref" else None
            hb = st.heap.get(b) if b.op == "ref" else None
            if ha is not None and hb is not None and ha.kind == hb.kind and ha.kind in ("tuple", "list") \
                    and all(i.op == "one" and i.args[0].args[0] == TRUE for i in ha.items + hb.items):
                if len(ha.items) != len(hb.items):
                    return FALSE
                return band(*[self.eq(val_of(x.args[1]), val_of(y.args[1]), st) for x, y in zip(ha.items, hb.items)])
            if (ha is not None and is_const(b)) or (hb is not None and is_const(a)):
                return FALSE
            if ha is not None and hb is not None and ha.kind == "set" and hb.kind == "set":
                from . import models
                return band(models._subset(self, a, b, st, None, None), models._subset(self, b, a, st, None, None))
            if ha is not None and hb is not None and ha.kind == "inst" and hb.kind == "inst":
                fa, fb = self.freeze(a, st), self.freeze(b, st)
                if fa is fb:
                    return TRUE
            return eq_leaf(self.freeze(a, st), self.freeze(b, st))
        # attr(enumterm,'value') == 'tok'
        for x, y in ((a, b), (b, a)):
            if x.op == "attr" and x.args[1] in ("value", "name") and is_const(y) and x.args[0].ty is not None:
                m = self.enum_of(x.args[0].ty)
                if m is not None:
                    r = FALSE
                    for n, e in self.prog.enum_members(m):
                        v = n if x.args[1] == "name" else (e.value if isinstance(e, ast.Constant) else None)
                        if v == cval(y):
                            r = bor(r, self.eq_leaves(x.args[0], mk("enum", m.qual, n, ty=ty(("cls", m.qual))), st))
                    return r
            if x.op == "enum" and is_const(y):
                return FALSE
            if x.op == "typeof" and y.op == "cls":
                return self.isinst_leaf(x.args[0], y, st)
            if x.op == "cls" and y.op == "cls":
                return FALSE
            if y.op == "enum" and x.op == "enumv" and x.args[0] == y.args[0]:
                # E(x) == E.M  <=>  x == M.value
                c = self.prog.classes.get(y.args[0])
                for n, e in self.prog.enum_members(c):
                    if n == y.args[1] and isinstance(e, ast.Constant):
                        return self.eq_leaves(x.args[1], C(e.value), st)
        return eq_leaf(a, b)

    def enum_of(self, t):
        rest = [a for a in t if a != ("none",)]
        if len(rest) == 1 and rest[0][0] == "cls":
            c = self.prog.classes.get(rest[0][1])
            if c is not None and self.prog.is_enum(c):
                return c
        return None

    def contains(self, x, cont, st):
        out = FALSE
        for g, l in alts(cont):
            out = bor(out, band(g, self.contains_leaf(x, l, st)))
        return out

    def contains_leaf(self, x, c, st):
        if c.op == "ref":
            h = st.heap[c]
            if h.kind in ("list", "tuple", "set", "dict"):
                return bor(*[self.item_contains(x, it, st) for it in h.items])
        if c.op == "c" and isinstance(cval(c), str):
            return bor(*[band(g, (TRUE if cval(l) in cval(c) else FALSE) if is_const(l) else atom_bdd(mk("in", self.freeze(l, st), c))) for g, l in alts(x)])
        if c.op == "lst":
            return bor(*[self.item_contains(x, it, st) for it in c.args[1]])
        if c.op == "cls":
            k = self.prog.classes.get(c.args[0])
            if k is not None and self.prog.is_enum(k):
                return bor(*[self.eq(x, self.enum_member(k, n), st) for n, _ in self.prog.enum_members(k)])
        return bor(*[band(g, atom_bdd(mk("in", self.freeze(l, st), self.freeze(c, st)))) for g, l in alts(x)])

    def item_contains(self, x, it, st):
        if it.op == "one":
            return band(it.args[0].args[0], self.eq(x, val_of(it.args[1]), st))
        if it.op == "kv":
            return band(it.args[0].args[0], self.eq(x, val_of(it.args[1]), st))
        if it.op == "each":
            e = it.args[1]
            inner = bor(*[self.item_contains(x, i, st) for i in it.args[3]])
            if voccurs(e, x):
                e2 = mk("elem", it.args[2], "q", ty=e.ty)
                sub = Subst({e: e2})
                inner = bor(*[self.item_contains(x, sub.term(i), st) for i in it.args[3]])
                return band(it.args[0].args[0], exists(e2, it.args[2], inner))
            return band(it.args[0].args[0], exists(e, it.args[2], inner))
        if it.op == "splat":
            return band(it.args[0].args[0], bor(*[band(g, member(self.freeze(l, st), it.args[1])) for g, l in alts(x)]))
        return bor(*[band(g, atom_bdd(mk("in", self.freeze(l, st), it))) for g, l in alts(x)])

    # ---------------------------------------------------------------- isinstance
    def class_leaves(self, v, st):
        """flatten an isinstance() second argument into [leaf]"""
        out = []
        for g, l in alts(v):
            if l.op == "ref" and st.heap[l].kind == "tuple":
                for it in st.heap[l].items:
                    out += self.class_leaves(val_of(it.args[1]), st)
            elif l.op == "uniont":
                for a in l.args:
                    out += self.class_leaves(a, st)
            else:
                out.append(l)
        return out

    def isinst(self, v, c, st):
        cl = self.class_leaves(c, st)
        out = FALSE
        for g, l in alts(v):
            out = bor(out, band(g, bor(*[self.isinst_leaf(l, k, st) for k in cl])))
        return out

    def isinst_leaf(self, t, k, st):
        if k.op == "c" and cval(k) is None:
            return is_none(t)
        if k.op == "ext" and k.args[0] == "types.NoneType":
            return is_none(t)
        if t.op == "g":
            return self.isinst(val_of(t), k, st)
        name = k.args[0] if k.op in ("cls", "bi", "ext") else None
        if t.op == "c":
            if k.op == "bi":
                bt = getattr(builtins, name, None)
                return TRUE if isinstance(bt, type) and isinstance(cval(t), bt) else FALSE
            return FALSE
        if t.op == "ref":
            h = st.heap[t]
            if h.kind == "inst":
                if k.op == "cls":
                    return TRUE if self.prog.subclass_of(h.cls, name) else FALSE
                return FALSE
            if k.op == "bi":
                return TRUE if h.kind == name else FALSE
            return FALSE
        if t.op == "enum":
            return TRUE if k.op == "cls" and t.args[0] == name else FALSE
        if t.op == "exc" and k.op in ("cls", "bi", "ext"):
            return TRUE if name in self.exc_ancestors(t.args[0]) else FALSE
        ty_ = tyof(t)
        if ty_ is None:
            return atom_bdd(mk("isa", t, name or show(k)))
        nn = bnot(is_none(t))
        yes, no = [], []
        for a in ty_:
            if a == ("none",):
                continue
            if a[0] == "cls":
                c = self.prog.classes.get(a[1])
                if k.op == "cls" and c is not None and self.prog.subclass_of(c, name):
                    yes.append(a)
                elif k.op == "cls" and c is not None and self.prog.classes.get(name) is not None \
                        and self.prog.subclass_of(self.prog.classes[name], a[1]):
                    return band(nn, atom_bdd(mk("isa", t, name)))
                else:
                    no.append(a)
            elif k.op == "bi" and a[0] == name:
                yes.append(a)
            elif k.op == "bi" and name == "int" and a[0] == "bool":
                yes.append(a)
            else:
                no.append(a)
        if not yes:
            return FALSE
        if not no:
            return nn
        # union: order classes, last one is the complement of the others
        names = sorted(a[1] if a[0] == "cls" else a[0] for a in yes + no)
        def atom_for(n):
            if n == names[-1]:
                return bnot(bor(*[atom_bdd(mk("isa", t, m)) for m in names[:-1]]))
            return atom_bdd(mk("isa", t, n))
        return band(nn, bor(*[atom_for(a[1] if a[0] == "cls" else a[0]) for a in yes]))

    # ---------------------------------------------------------------- exceptions
    def exc_ancestors(self, name):
        c = self.prog.classes.get(name)
        if c is not None:
            out = self.prog.base_names(c)
            for b in list(out):
                out |= EXT_EXC_BASES.get(b, set())
            return out
        o = getattr(builtins, name.split(".")[-1], None)
        out = {name}
        if isinstance(o, type) and issubclass(o, BaseException) and "." not in name:
            out |= {x.__name__ for x in o.__mro__}
        out |= EXT_EXC_BASES.get(name, set())
        if "." in name and name not in EXT_EXC_BASES:
            out |= {"Exception", "BaseException"}
        return out

    def do_raise(self, st, exc, node, fr):
        """all of st raises exc"""
        if st.pc != FALSE:
            self.raise_stack[-1].append(
                Outcome(st.copy(), exc, self.loc(node, fr), self.ctx, st.pc, fr.func.qual if fr.func else "", tuple(f.qual for f in self.callstack)))
        st.pc = FALSE

    def maybe_raise(self, st, guard, exc_name, node, fr, args=()):
        """external raiser: fork if an enclosing handler of the analysed code may see it"""
        guard = band(guard, st.pc)
        if guard == FALSE:
            return
        if any(any(h in self.exc_ancestors(exc_name) for h in hs) for hs in self.catching):
            s2 = st.copy(guard)
            self.do_raise(s2, mk("exc", exc_name, *args), node, fr)
            st.pc = band(st.pc, bnot(guard))
            if st.pc == FALSE:
                raise Unreachable()
        else:
            s2 = st.copy(guard)
            self.eff("implicit", s2, (exc_name,) + tuple(args), node, fr)

    def per_alt(self, fn, v, st):
        """fn of every alternative of v, each under its own condition: what one of them raises, the others do not"""
        if not isinstance(v, G):
            return fn(v)
        pc, rest, out = st.pc, FALSE, []
        for g, l in alts(v):
            st.pc = band(pc, g)
            if st.pc == FALSE:
                continue
            try:
                r = fn(l)
            except Unreachable:
                continue
            rest = bor(rest, st.pc)
            out += [(band(g, g2), l2) for g2, l2 in alts(r)]
        st.pc = rest
        if rest == FALSE:
            raise Unreachable()
        return gate(out)

    # ---------------------------------------------------------------- blocks
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None or st.pc == FALSE:
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            self.stmts_seen.add((fr.module.rel, getattr(s, "lineno", 0)))
            try:
                st = self.exec_stmt(s, st, fr)
            except Unreachable:
                return None
        if st is not None and st.pc == FALSE:
            return None
        return st

    def exec_stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note(f"statement {type(s).__name__} not modelled", s, fr)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Global = s_Nonlocal = s_Import = s_Pass

    def s_ImportFrom(self, s, st, fr):
        base = self.prog._from_base(fr.module, s)
        for a in s.names:
            r = self.prog.lookup_from(base, a.name)
            st.envs[fr.fid][a.asname or a.name] = self.force(self.resolved(r, f"{base}.{a.name}", fr.module, a.name), st)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.envs[fr.fid][nm] = mk("mod", a.name if a.asname else a.name.split(".")[0])
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def s_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        st.pc = band(st.pc, c) if band(st.pc, c) != FALSE else st.pc
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return st
        v = self.ev(s.value, st, fr)
        if isinstance(s.target, ast.Name) and isinstance(v, T) and v.ty is None and v.op not in ("c", "ref"):
            t = self.prog.ann_type(fr.module, s.annotation)
            if t is not None:
                v.ty = t
        if isinstance(v, T) and v.op == "ref" and st.heap[v].kind in ("list", "set", "dict") and st.heap[v].extra is None:
            t = self.prog.ann_type(fr.module, s.annotation)
            if t is not None:
                st.heap[v] = st.heap[v].with_(extra=t)
        self.assign(s.target, v, st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(self._load(s.target), st, fr)
        rhs = self.ev(s.value, st, fr)
        if isinstance(cur, T) and cur.op == "ref" and st.heap[cur].kind == "list" and isinstance(s.op, ast.Add):
            self.call_method_ref(cur, "extend", [rhs], {}, st, fr, s)
            return st
        if isinstance(cur, T) and cur.op == "ref" and st.heap[cur].kind in ("set", "dict") and isinstance(s.op, ast.BitOr):
            self.call_method_ref(cur, "update", [rhs], {}, st, fr, s)
            return st
        v = self.binop(s.op, cur, rhs, st, s, fr)
        self.assign(s.target, v, st, fr)
        return st

    def _load(self, t):
        import copy

        n = copy.copy(t)
        n.ctx = ast.Load()
        return n

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.eff("delitem", st, (self.freeze(o, st), self.freeze(k, st)), s, fr)
                if not any(l.op == "ref" for _, l in alts(o)):
                    self.mutated(st, o, "delitem", [k])
                self._havoc_container(o, st)
            else:
                self.eff("del", st, (ast.unparse(t),), s, fr)
        return st

    def _havoc_container(self, v, st):
        for g, l in alts(v):
            if l.op == "ref" and l in st.heap and st.heap[l].kind in ("list", "set", "dict"):
                self.oid += 1
                st.heap[l] = st.heap[l].with_(items=(splat(mk("havoc", self.oid)),), order=None)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append(Outcome(st, v, self.loc(s, fr), self.ctx, st.pc, fr.func.qual if fr.func else "", ()))
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = fr.handling[-1] if fr.handling else mk("exc", "Exception")
        else:
            e = self.ev(s.exc, st, fr)
            if isinstance(e, T) and e.op in ("cls", "bi", "ext"):
                e = self.call(e, [], {}, st, fr, s)
        if s.cause is not None:
            self.ev(s.cause, st, fr)
        for g, l in alts(e):
            s2 = st.copy(band(st.pc, g))
            if s2.pc == FALSE:
                continue
            self.do_raise(s2, l, s, fr)
        return None

    def s_FunctionDef(self, s, st, fr):
        f = Func(s, fr.module, None, f"{fr.func.qual if fr.func else fr.module.name}.<locals>.{s.name}", fr.func)
        v = self.mkfn(f, fr.fid)
        fr.keep = True
        st.envs[fr.fid][s.name] = v
        if f.decorators:
            for d in reversed(s.decorator_list):
                if dec_plain(d):
                    continue
                dv = self.ev(d, st, fr)
                st.envs[fr.fid][s.name] = self.call(dv, [st.envs[fr.fid][s.name]], {}, st, fr, s)
        return st

    def s_ClassDef(self, s, st, fr):
        self.note("local class", s, fr)
        return st

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        a, b = self.split(st, c)
        ra = self.exec_block(s.body, a, fr) if a else None
        rb = (self.exec_block(s.orelse, b, fr) if s.orelse else b) if b else None
        return self.merge([ra, rb])

    def split(self, st, c):
        """(state where c, state where not c); None if infeasible"""
        p1, p2 = band(st.pc, c), band(st.pc, bnot(c))
        if p1 == FALSE:
            return None, st
        if p2 == FALSE:
            return st, None
        from .theory import feasible

        f1, f2 = feasible(p1, self.prog), feasible(p2, self.prog)
        if not f1 and f2:
            return None, st
        if not f2 and f1:
            return st, None
        a = st.copy(p1)
        b = st
        b.pc = p2
        return a, b

    def cond(self, e, st, fr):
        return self.truth(self.ev(e, st, fr), st)

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        out = []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            binds = {}
            c = self.match_pattern(case.pattern, subj, cur, fr, binds)
            a, b = self.split(cur, c)
            if a is not None:
                for k, v in binds.items():
                    a.envs[fr.fid][k] = v
                if case.guard is not None:
                    gc = self.cond(case.guard, a, fr)
                    a, b2 = self.split(a, gc)
                    if b2 is not None:
                        b = self.merge([x for x in (b, b2) if x is not None])
                if a is not None:
                    out.append(self.exec_block(case.body, a, fr))
            cur = b
        out.append(cur)
        return self.merge(out)

    def match_pattern(self, p, v, st, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, st, fr), st)
        if isinstance(p, ast.MatchSingleton):
            return self.isnone(v) if p.value is None else self.eq(v, C(p.value), st)
        if isinstance(p, ast.MatchOr):
            return bor(*[self.match_pattern(x, v, st, fr, binds) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.match_pattern(p.pattern, v, st, fr, binds)
            if p.name:
                binds[p.name] = v
            return c
        if isinstance(p, ast.MatchClass):
            c = self.isinst(v, self.ev(p.cls, st, fr), st)
            for a, sp in zip(p.kwd_attrs, p.kwd_patterns):
                c = band(c, self.match_pattern(sp, self.getattr(v, a, st, fr, p), st, fr, binds))
            return c
        if isinstance(p, ast.MatchSequence):
            h = st.heap.get(v) if isinstance(v, T) and v.op == "ref" else None
            if h is not None and all(i.op == "one" for i in h.items) and len(h.items) == len(p.patterns):
                return band(*[self.match_pattern(sp, val_of(i.args[1]), st, fr, binds) for sp, i in zip(p.patterns, h.items)])
        self.note("match pattern not modelled", p, fr)
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                binds[n.name] = mk("opaque", "match", ast.dump(p))
        return atom_bdd(mk("match", ast.dump(p), self.freeze(v, st)))

    # ---------------------------------------------------------------- try/with
    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        v = self.ev(h.type, st, fr)
        out = []
        for l in self.class_leaves(v, st):
            out.append(l.args[0] if l.op in ("cls", "bi", "ext", "mod") else show(l))
        return out

    def s_Try(self, s, st, fr):
        hn = [self.handler_names(h, st, fr) for h in s.handlers]
        self.raise_stack.append([])
        self.catching.append([n for ns in hn for n in ns])
        rmark = len(fr.returns)
        try:
            out = self.exec_block(s.body, st, fr)
        finally:
            self.catching.pop()
            raised = self.raise_stack.pop()
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        results = [out]
        pending = raised
        for h, names in zip(s.handlers, hn):
            mine, rest = [], []
            for o in pending:
                alts_ = [(g, l) for g, l in alts(o.val)]
                anc = self.exc_ancestors(alts_[0][1].args[0]) if alts_[0][1].op == "exc" else {"Exception", "BaseException"}
                (mine if any(n in anc for n in names) else rest).append(o)
            pending = rest
            if mine:
                sts = []
                val = None
                for o in mine:
                    sts.append(o.st)
                val = gate([(restrict(o.st.pc, bor(*[x.st.pc for x in mine])), o.val) for o in mine]) if len(mine) > 1 else mine[0].val
                hs = self.merge(sts)
                if hs is None:
                    continue
                if h.name:
                    hs.envs[fr.fid][h.name] = val
                self.eff("caught", hs, (tuple(sorted({x.args[0] for o in mine for _, x in alts(o.val) if x.op == "exc"})), tuple(o.loc for o in mine)), h, fr)
                fr.handling.append(val)
                r = self.exec_block(h.body, hs, fr)
                fr.handling.pop()
                results.append(r)
        self.raise_stack[-1].extend(pending)
        res = self.merge(results)
        if s.finalbody:
            if res is not None:
                res = self.exec_block(s.finalbody, res, fr)
            else:
                # effects of the finally block on the exceptional/returning paths
                src = [o.st for o in pending] + [o.st for o in fr.returns[rmark:]]
                m = self.merge([x.copy() for x in src]) if src else None
                if m is not None:
                    self.exec_block(s.finalbody, m, fr)
        return res

    s_TryStar = s_Try

    def s_With(self, s, st, fr):
        for n, it in enumerate(s.items):
            c = it.context_expr
            if isinstance(c, ast.Call) and it.optional_vars is None and not c.keywords:
                f = self.ev(c.func, st, fr)
                if isinstance(f, T) and f.op == "ext" and f.args[0] == "contextlib.suppress":
                    body = s.body if n + 1 == len(s.items) else [ast.copy_location(ast.With(items=s.items[n + 1:], body=s.body), s)]
                    h = ast.ExceptHandler(type=ast.Tuple(elts=c.args, ctx=ast.Load()), name=None, body=[ast.copy_location(ast.Pass(), s)])
                    t = ast.Try(body=body, handlers=[ast.copy_location(h, s)], orelse=[], finalbody=[])
                    return self.s_Try(ast.fix_missing_locations(ast.copy_location(t, s)), st, fr)
            v = self.ev(it.context_expr, st, fr)
            self.eff("with", st, (self.freeze(v, st),), s, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def body(v, s2, f2):
            self.assign(s.target, v, s2, f2)
            return self.exec_block(s.body, s2, f2)

        out, broke = self.loop_over(it, st, fr, body, s, s.body)
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        return self.merge([out] + broke)

    def loop_over(self, it, st, fr, body, node, pred=None):
        """-> (state after exhaustion | None, [break states])"""
        outs, brks = [], []
        al = alts(it)
        for i, (g, l) in enumerate(al):
            pc = band(st.pc, g)
            if pc == FALSE:
                continue
            s2 = st if len(al) == 1 else st.copy(pc)
            s2.pc = pc
            fr.loops.append({"brk": [], "cont": [], "pred": pred})
            try:
                r = self.iterate(l, s2, fr, body, node)
            finally:
                lp = fr.loops.pop()
            outs.append(r)
            brks += lp["brk"]
        return self.merge(outs), brks

    def seq_items(self, l, st, node, fr):
        """(items, order) of a sequence leaf"""
        if l.op == "ref":
            h = st.heap[l]
            if h.kind == "set":
                from .models import members

                its = members(self, h, st)
                return (splat(mk("opaque", "members", self.freeze(l, st))),) if its is None else tuple(its), h.order, "set"
            if h.kind in ("list", "tuple"):
                return h.items, h.order, h.kind
            if h.kind == "dict":
                from .models import entries

                its = entries(self, l, h, st, lambda g, key, v: one(g, key))
                return (splat(mk("opaque", "keys", self.freeze(l, st))),) if its is None else tuple(its), None, "dict"
            if h.kind == "xml":
                return h.items, None, "xml"
        if l.op == "c" and isinstance(cval(l), (str, bytes)):
            return tuple(one(TRUE, C(x)) for x in cval(l)), None, "str"
        if l.op == "lst":
            return l.args[1], None, l.args[0]
        if l.op == "cls":
            c = self.prog.classes.get(l.args[0])
            if c is not None and self.prog.is_enum(c):
                return tuple(one(TRUE, self.enum_member(c, n)) for n, _ in self.prog.enum_members(c)), None, "list"
        if l.op == "range" and all(is_const(a) for a in l.args):
            r = range(*[cval(a) for a in l.args])
            if len(r) <= 64:
                return tuple(one(TRUE, C(i)) for i in r), None, "list"
        if l.ty is not None and ("xml",) in l.ty:
            return (splat(mk("children", l, ty=T_LIST(T_XML))),), None, "xml"
        return (splat(l),), None, "sym"

    def elem_ty(self, src):
        t = src.ty
        if src.op in ("findall", "children"):
            return T_XML
        if src.op == "range":
            return T_INT
        if t is None:
            return None
        for a in t:
            if a[0] in ("list", "set") and a[1] is not None:
                return a[1]
            if a[0] == "tuple" and a[1] and len(set(a[1])) == 1:
                return a[1][0]
            if a[0] == "dict":
                return a[1]
            if a == ("str",):
                return T_STR
        return None

    def elem_of(self, src):
        base = src
        while base.op in ("sorted", "reversed"):
            base = base.args[0]
        return mk("elem", base, ty=self.elem_ty(src) or self.elem_ty(base))

    def iterate(self, l, st, fr, body, node):
        items, order, kind = self.seq_items(l, st, node, fr)
        for it in items:
            if st is None or st.pc == FALSE:
                return None
            st = self.iter_item(it, order, st, fr, body, node)
        return st

    def run_body(self, v, st, fr, body):
        """one execution of the body; merges continue"""
        lp = fr.loops[-1]
        save = lp["cont"]
        lp["cont"] = []
        try:
            r = body(v, st, fr)
        except Unreachable:
            r = None
        r = self.merge([r] + lp["cont"])
        lp["cont"] = save
        return r

    def iter_item(self, it, order, st, fr, body, node):
        g = it.args[0].args[0] if it.args and isinstance(it.args[0], T) and it.args[0].op == "b" else TRUE
        if it.op == "one":
            if g == TRUE:
                return self.run_body(val_of(it.args[1]), st, fr, body)
            a, b = self.split(st, g)
            ra = self.run_body(val_of(it.args[1]), a, fr, body) if a is not None else None
            return self.merge([ra, b])
        if it.op == "splat":
            src = it.args[1]
            if src.op in ("lst",) or (src.op == "ref"):
                a, b = self.split(st, g)
                ra = self.iterate(src, a, fr, body, node) if a is not None else None
                return self.merge([ra, b])
            e = self.elem_of(src)
            inner = (one(TRUE, e),)
            return self.loop_generic(e, src, inner, g, order, st, fr, body, node)
        if it.op == "each":
            return self.loop_generic(it.args[1], it.args[2], it.args[3], g, order, st, fr, body, node)
        # opaque prefix (loopin) item
        e = mk("elem", it, ty=it.ty)
        return self.loop_generic(e, it, (one(TRUE, e),), TRUE, order, st, fr, body, node)

    def loop_generic(self, e, src, inner, g, order, st, fr, body, node):
        active = {c[0] for c in self.ctx}
        if e in active:
            k = 1
            while mk("elem", src, k) in active:
                k += 1
            e2 = mk("elem", src, k, ty=e.ty)
            sub = Subst({e: e2}, lambda t, sb: self.heap_clone(t, sb, st, e))
            inner = tuple(sub.term(i) for i in inner)
            e = e2
        psrc = self._ordered(src, order) if order else src
        a, b = self.split(st, g) if g != TRUE else (st, None)
        if a is None:
            return b
        r = self._loop_generic(e, psrc, inner, a, fr, body, node)
        return self.merge([r, b]) if b is not None else r

    def heap_clone(self, t, sub, st, e):
        h = st.heap.get(t)
        if h is None or e not in h.ctx:
            return t
        self.oid += 1
        r = mk("ref", self.oid)
        sub.memo[t] = r
        st.heap[r] = h  # placeholder for cycles
        st.heap[r] = h.with_(
            attrs={k: sub.val(v) for k, v in h.attrs.items()},
            items=tuple(sub.term(i) for i in h.items),
            ctx=tuple(sub.m.get(c, c) for c in h.ctx),
            extra=tuple(sub.term(i) for i in h.extra) if isinstance(h.extra, tuple) and h.kind == "xml" else h.extra,
            proto=sub.term(h.proto) if h.proto is not None else None,
        )
        return r

    def _diff(self, a, b, e):
        """locations changed between a (start) and b (end); [] if none"""
        out = set()
        for fid, env in a.envs.items():
            eb = b.envs.get(fid)
            if eb is None:
                continue
            for k in env:
                if k in eb and eb[k] is not env[k] and eb[k] != env[k]:
                    out.add(("var", fid, k))
                elif k not in eb:
                    out.add(("var", fid, k))
            for k in eb:
                if k not in env:
                    out.add(("newvar", fid, k))
        for r, oa in a.heap.items():
            ob = b.heap.get(r)
            if ob is None or oa is ob or oa.same(ob):
                continue
            if e in oa.ctx:
                continue
            for k in set(oa.attrs) | set(ob.attrs):
                if oa.attrs.get(k) != ob.attrs.get(k):
                    out.add(("hattr", r, k))
            if oa.items != ob.items or oa.order != ob.order:
                out.add(("hitems", r))
            if oa.kind == "xml" and oa.extra != ob.extra:
                out.add(("hextra", r))
        for k, v in b.store.items():
            if a.store.get(k) != v and not occurs(e, k[0]):
                out.add(("store",) + k)
        return out

    def _loopin(self, e, src, locn, ty_=None):
        t = mk("loopin", e, src, *locn)
        if t.ty is None and t not in self.untyped:
            t.ty = ty_
        return t

    def _havoc(self, st, H, e, src):
        for h in H:
            if h[0] == "var":
                cur = st.envs[h[1]].get(h[2])
                t = self._ty_of_v(cur, st)
                st.envs[h[1]][h[2]] = self._loopin(e, src, h, t)
            elif h[0] == "hattr":
                o = st.heap[h[1]]
                t = self._ty_of_v(o.attrs.get(h[2]), st)
                st.heap[h[1]] = o.set_attr(h[2], self._loopin(e, src, h, t))
            elif h[0] == "hitems":
                o = st.heap[h[1]]
                et = None
                if isinstance(o.extra, frozenset):
                    for a in o.extra:
                        if a[0] in ("list", "set"):
                            et = a[1]
                        elif a[0] == "dict":
                            et = a[1]
                st.heap[h[1]] = o.with_(items=(self._loopin(e, src, h, et),), order=None)
            elif h[0] == "hextra":
                o = st.heap[h[1]]
                st.heap[h[1]] = o.with_(extra=(self._loopin(e, src, h),))
            elif h[0] == "store":
                st.store[(h[1], h[2])] = self._loopin(e, src, h, self.attr_ty(h[1], h[2]))

    def _learn_type(self, e, src, h, end, pre):
        """the type of what a loop adds to a container without an annotation, or leaves in a variable; True when it was
        not known before"""
        if h[0] in ("var", "hattr"):
            L = self._loopin(e, src, h)
            if L.ty is None:
                return False
            if h[0] == "var":
                v = end.envs.get(h[1], {}).get(h[2])
            else:
                v = end.heap[h[1]].attrs.get(h[2]) if h[1] in end.heap else None
            t = frozenset()
            for _, l in alts(v) if v is not None else ():
                if l is L:
                    continue
                x = self._ty_of_v(l, end)
                if x is None:
                    t = None
                    break
                t |= x
            if t is not None and t <= L.ty:
                return False
            L.ty = None if t is None else L.ty | t
            if t is None:
                self.untyped.add(L)
            return True
        if h[0] != "hitems" or h[1] not in end.heap:
            return False
        L = self._loopin(e, src, h)
        o, p0 = end.heap[h[1]], pre.heap.get(h[1])
        if L.ty is not None or o.kind not in ("list", "set"):
            return False
        out = self._items_ty([i for i in o.items if i is not L], end)
        if out is None:
            return False
        if p0 is not None and p0.items:
            t0 = self._items_ty(p0.items, pre)
            if t0 is None:
                return False
            out |= t0
        L.ty = out
        return True

    def _items_ty(self, items, st):
        out = frozenset()
        for i in items:
            if i.op == "one":
                t = self._ty_of_v(val_of(i.args[1]), st)
            elif i.op == "splat":
                x = i.args[1]
                if x.op == "ref":
                    t = self._items_ty(st.heap[x].items, st) if x in st.heap else None
                else:
                    t = self.elem_ty(x)
            elif i.op == "each":
                t = self._items_ty(i.args[3], st)
            else:
                t = i.ty
            if t is None:
                return None
            out |= t
        return out or None

    def _ty_of_v(self, v, st):
        if v is None:
            return None
        out = frozenset()
        for g, l in alts(v):
            if l.op == "ref":
                h = st.heap.get(l)
                if h is not None and h.kind == "inst":
                    out |= ty(("cls", h.cls.qual))
                    continue
                return None
            t = tyof(l)
            if t is None:
                return None
            out |= t
        return out or None

    def _predict(self, pred, st, fr, e):
        """containers the loop body grows (found syntactically; saves a dry run)"""
        H: set = set()
        if pred is None:
            return H
        if isinstance(pred, T):
            h = st.heap.get(pred)
            if h is not None and e not in h.ctx:
                H.add(("hitems", pred))
            return H
        k = id(pred)
        names = _grown.get(k)
        if names is None:
            names = set()
            for s in pred:
                for n in ast.walk(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add") \
                            and isinstance(n.func.value, ast.Name):
                        names.add(n.func.value.id)
            _grown[k] = names
            _grown_keep.append(pred)
        env = st.envs.get(fr.fid, {})
        for n in names:
            v = env.get(n)
            if isinstance(v, T) and v.op == "ref":
                h = st.heap.get(v)
                if h is not None and h.kind in ("list", "set") and e not in h.ctx:
                    H.add(("hitems", v))
        return H

    def _loop_generic(self, e, src, inner, st, fr, body, node):
        pre = st
        pc0 = pre.pc
        H: set = self._predict(fr.loops[-1].get("pred"), st, fr, e)
        end = None
        for rnd in range(6):
            start = pre.copy()
            self._havoc(start, [h for h in H if h[0] != "newvar"], e, src)
            s0 = start.copy()
            logmark, retmark, raisemark = len(self.log), len(fr.returns), len(self.raise_stack[-1])
            lp = fr.loops[-1]
            brksave, lp["brk"] = lp["brk"], []
            self.ctx = self.ctx + ((e, src),)
            try:
                cur = start
                for it in inner:
                    if cur is None:
                        break
                    cur = self.iter_item(it, None, cur, fr, body, node)
            finally:
                self.ctx = self.ctx[:-1]
            brks, lp["brk"] = lp["brk"], brksave
            end = cur
            changed = set()
            if end is not None:
                changed |= self._diff(s0, end, e)
            for bs in brks:
                changed |= {c for c in self._diff(s0, bs, e) if c[0] != "newvar"} if False else set()
            new = {c for c in changed if c not in H}
            typed = end is not None and rnd < 5 and any([self._learn_type(e, src, h, end, pre) for h in H | new])
            if not typed and not {c for c in new if c[0] != "newvar"} or rnd == 5:
                H |= new
                break
            H |= new
            # drop the dry run
            del self.log[logmark:]
            del fr.returns[retmark:]
            del self.raise_stack[-1][raisemark:]
        new_logs = self.log[logmark:]
        rets = fr.returns[retmark:]
        del fr.returns[retmark:]
        rais = self.raise_stack[-1][raisemark:]
        del self.raise_stack[-1][raisemark:]

        def rel(b):
            return restrict(b, pc0) if pc0 != TRUE else b

        # prefix substitution for accumulated containers
        submap, lasts = {}, {}
        if end is not None:
            carried = {}
            for h in H:
                L = self._loopin(e, src, h)
                if h[0] in ("hitems", "hextra"):
                    o = end.heap.get(h[1])
                    p0 = pre.heap.get(h[1])
                    its = (o.items if h[0] == "hitems" else o.extra) if o is not None else ()
                    pit = (p0.items if h[0] == "hitems" else p0.extra) if p0 is not None else ()
                    if its and its[0] is L and not any(x is L for x in its[1:]):
                        carried[L] = (False, tuple(self.freeze_item(self._rel_item(i, end.pc), end) for i in its[1:]),
                                      tuple(self.freeze_item(i, pre) for i in pit))
                elif h[0] in ("var", "hattr"):
                    if h[0] == "var":
                        v, v0 = end.envs[h[1]].get(h[2]), pre.envs[h[1]].get(h[2])
                    else:
                        v, v0 = end.heap[h[1]].attrs.get(h[2]), pre.heap[h[1]].attrs.get(h[2])
                    if v is not None and v0 is not None and v is not L:
                        v = vrestrict(v, end.pc) if end.pc != TRUE else v
                        fz = lambda x, st_: gterm(vmap(lambda l: self.freeze(l, st_), x))
                        carried[L] = (True, (one(TRUE, fz(v, end)),), fz(v0, pre))
            submap, lasts = prefixes(e, src, carried)
        sub = Subst(submap) if submap else None
        if sub:
            for lg in new_logs:
                lg.guard = sub.bdd(lg.guard)
                lg.rel = sub.bdd(lg.rel)
                lg.pcs = tuple(sub.bdd(x) for x in lg.pcs)
                lg.ctx = tuple((sub.term(x), sub.term(y)) if isinstance(y, T) else (x, y) for x, y in lg.ctx)
            for o in rais:
                o.guard = sub.bdd(o.guard)
                o.st.pc = sub.bdd(o.st.pc)
            for o in rets:
                o.st.pc = sub.bdd(o.st.pc)
                o.val = sub.val(o.val)
            for b_ in brks:
                b_.pc = sub.bdd(b_.pc)

        for lg in new_logs:
            # the guard relative to one iteration, and the condition under which the loop is reached
            if lg.pcs:
                lg.pcs = (pc0, rel(lg.pcs[0])) + lg.pcs[1:]
            else:
                lg.pcs = (pc0,)
                lg.rel = rel(lg.guard)

        brk_rel = bor(*[rel(b_.pc) for b_ in brks])
        ret_rel = bor(*[rel(o.st.pc) for o in rets])
        stop_rel = bor(brk_rel, ret_rel)
        post = pre.copy()
        ex_stop = exists(e, src, stop_rel)
        first = mk("elem!", src, bterm(Subst({e: mk("it")}).bdd(stop_rel)), ty=e.ty) if stop_rel != FALSE else None
        fsub = Subst({e: first}) if first is not None else None
        post.pc = band(pc0, bnot(ex_stop))
        if end is None and stop_rel == FALSE:
            # body never completes normally (always raises)
            post.pc = band(pc0, bnot(nonempty(src)))
        if end is not None:
            # objects created in the loop / owned by e
            for r, o in end.heap.items():
                if r not in pre.heap or e in o.ctx:
                    post.heap[r] = self._sub_obj(o, sub) if sub else o
            for k, v in end.store.items():
                if occurs(e, k[0]):
                    post.store[k] = sub.val(v) if sub else v
                elif k not in pre.store:
                    post.store[k] = self._summ_var(e, src, ("store",) + k, v, self.sym_attr(*k), submap, stop_rel, lasts, pre)
            for h in sorted(H, key=str):
                if h[0] == "var":
                    v = end.envs[h[1]].get(h[2])
                    if v is not None:
                        post.envs[h[1]][h[2]] = self._summ_var(e, src, h, v, pre.envs[h[1]].get(h[2]), submap, stop_rel, lasts, pre)
                elif h[0] == "newvar":
                    v = end.envs.get(h[1], {}).get(h[2])
                    if v is not None and h[1] in post.envs:
                        post.envs[h[1]][h[2]] = self._summ_var(e, src, h, v, mk("unbound"), submap, stop_rel, lasts, pre)
                elif h[0] == "hattr":
                    v = end.heap[h[1]].attrs.get(h[2])
                    if v is not None:
                        post.heap[h[1]] = post.heap[h[1]].set_attr(
                            h[2], self._summ_var(e, src, h, v, pre.heap[h[1]].attrs.get(h[2]), submap, stop_rel, lasts, pre))
                elif h[0] in ("hitems", "hextra"):
                    o = end.heap[h[1]]
                    L = self._loopin(e, src, h)
                    its = o.items if h[0] == "hitems" else o.extra
                    po = post.heap[h[1]]
                    pit = po.items if h[0] == "hitems" else po.extra
                    if its and its[0] is L:
                        newit = [sub.term(i) if sub else i for i in its[1:]]
                        if stop_rel != FALSE:
                            nb = bnot(atom_bdd(mk("stopped", e, src, bterm(stop_rel))))
                            newit = [guard_item(i, nb) if i.op in ("one", "each", "splat", "kv") else i for i in newit]
                        newit = [self._rel_item(i, pc0) for i in newit]
                        its2 = pit + ((each(e, src, newit),) if newit else ())
                        od = po.order
                        if newit:
                            od = joined_order((po.order, o.order)) if _parts_only(o.order) else ((mk("mixed"),),)
                    else:
                        self.oid += 1
                        its2 = (splat(mk("loopout", e, src, self.oid)),)
                        od = None
                    post.heap[h[1]] = po.with_(items=its2, order=od) if h[0] == "hitems" else po.with_(extra=its2)
        # break states
        for b_ in brks:
            s2 = self._sub_state(b_, fsub, e, sub, pre)
            s2.pc = band(pc0, exists(e, src, rel(b_.pc)))
            fr.loops[-1]["brk"].append(s2)
        for o in rets:
            v = fsub.val(o.val) if fsub else o.val
            r = rel(o.st.pc)
            o.st = self._sub_state(o.st, fsub, e, sub, pre)
            o.st.pc = band(pc0, exists(e, src, r))
            fr.returns.append(Outcome(o.st, v, o.loc, o.ctx, o.guard, o.fn, o.stack))
        groups: dict = {}
        for o in rais:
            k = o.val.args[0] if isinstance(o.val, T) and o.val.op == "exc" else o
            if self.coarse and not any(self.catching):
                k = "any"
            groups.setdefault(k, []).append(o)
        for os_ in groups.values():
            o = os_[0]
            r = bor(*[rel(x.st.pc) for x in os_])
            if len(os_) > 1 and any(self.catching):
                o.st = self.merge([x.st for x in os_])
            o.guard = bor(*[x.guard for x in os_])
            o.st.pc = band(pc0, exists(e, src, r))
            self.raise_stack[-1].append(o)
        return post if post.pc != FALSE else None

    def _rel_item(self, it, pc0):
        if pc0 == TRUE or not it.args or not (isinstance(it.args[0], T) and it.args[0].op == "b"):
            return it
        return mk(it.op, bterm(restrict(it.args[0].args[0], pc0)), *it.args[1:])

    def _sub_obj(self, o, sub):
        return o.with_(attrs={k: sub.val(v) for k, v in o.attrs.items()}, items=tuple(sub.term(i) for i in o.items))

    def _sub_state(self, s, fsub, e, sub=None, pre=None):
        """the state in which a loop is left early: what was said of the iteration is said of the first that leaves"""
        s2 = s.copy()
        if fsub is None:
            return s2
        for fid, env in s2.envs.items():
            for k, v in env.items():
                if voccurs(e, v):
                    v = sub.val(v) if sub else v
                    env[k] = fsub.val(v)
        if pre is not None:
            for r, o in list(s2.heap.items()):
                if o is not pre.heap.get(r):
                    if sub:
                        if o.items and o.items[0] in sub.m:
                            t = sub.m[o.items[0]]
                            o = o.with_(items=(t.args[1] if t.op == "lst" else (splat(t),)) + o.items[1:])
                        o = self._sub_obj(o, sub)
                    s2.heap[r] = self._sub_obj(o, fsub)
            for k, v in list(s2.store.items()):
                if pre.store.get(k) is not v:
                    k2 = (fsub.term(k[0]), k[1]) if occurs(e, k[0]) else k
                    v2 = fsub.val(sub.val(v) if sub else v)
                    if k2 is not k:
                        del s2.store[k]
                    s2.store[k2] = v2
        return s2

    def _summ_var(self, e, src, h, v, init, submap, stop_rel, lasts, pre):
        L = self._loopin(e, src, h)
        if isinstance(v, T) and v is L:
            return init
        if submap:
            v = Subst({k: x for k, x in submap.items() if k is not L}).val(v)
        if init is None:
            init = mk("unbound")
        other = [(g, l) for g, l in alts(v) if l is not L]
        if stop_rel == FALSE and not any(l.op == "unbound" for _, l in other):
            gset = bor(*[g for g, _ in other])
            leaves = {l for _, l in other}
            guardsL = any(occurs(L, a) for g, _ in other for a in support(g))
            # what the last element makes of it
            if gset == TRUE and not guardsL and isinstance(src, T) and not any(
                    l.op == "ref" or occurs(L, l) or any(occurs_op(o, l) for o in ("prefix", "carry", "before", "prev")) for l in leaves) \
                    and not any(occurs_op(o, a) for g, _ in other for a in support(g) for o in ("prefix", "carry", "before", "prev")):
                from .models import length

                n = length(self, src, None) if src.op != "ref" else None
                m = {e: self.index_term(src, -1, None, None)}
                if isinstance(n, T):
                    m[mk("idx", e, src, ty=T_INT)] = aff_add(n, C(-1))
                if isinstance(n, T) or not any(occurs_op("idx", x) for x in leaves):
                    return vite(nonempty(src), Subst(m).val(v), init)
            # loop-invariant conditional set
            if len(leaves) == 1 and not guardsL:
                l = next(iter(leaves))
                if not occurs(e, l) and not occurs(L, l) and (l.op != "ref" or l in pre.heap and e not in pre.heap[l].ctx):
                    return vite(exists(e, src, gset), l, init)
            # max/min
            if len(other) == 1:
                g, l = other[0]
                if not occurs(L, l):
                    for kind, lt, le in (("max", le0(aff_add(aff_add(L, l, -1), C(1))), le0(aff_add(L, l, -1))),
                                         ("min", le0(aff_add(aff_add(l, L, -1), C(1))), le0(aff_add(l, L, -1)))):
                        for c in (lt, le):
                            if c not in (TRUE, FALSE) and bimplies(g, c) == TRUE:
                                hgd = restrict(g, c)
                                if not any(occurs(L, a) for a in support(hgd)):
                                    return mk("fold", kind, gterm(init), (each(e, src, (one(hgd, l),)),), ty=T_INT)
            # max(L, x) / min(L, x) / L + t
            if len(leaves) == 1 and gset == TRUE:
                l = next(iter(leaves))
                if l.op == "maxn" and L in l.args[1] and l.args[0] in ("max", "min"):
                    rest = [x for x in l.args[1] if x is not L]
                    if len(rest) == 1 and not occurs(L, rest[0]):
                        return mk("fold", l.args[0], gterm(init), (each(e, src, (one(TRUE, rest[0]),)),), ty=T_INT)
            if not guardsL and other:
                its = []
                ok = True
                for g, l in other:
                    k, d = aff_parts(l)
                    if d.get(L) == 1:
                        rest = aff_add(l, L, -1)
                        if occurs(L, rest):
                            ok = False
                            break
                        its.append(one(g, rest))
                    else:
                        ok = False
                        break
                if ok:
                    return mk("fold", "sum", gterm(init), (each(e, src, its),), ty=T_INT)
        iv = gterm(init)
        if L in lasts and stop_rel == FALSE:
            return lasts[L]
        if any(l.op == "ref" for _, l in alts(v)):
            if not voccurs(L, v) and len(alts(v)) == 1:
                return v
        return mk("lastv", e, src, gterm(v), iv, ty=tyof(gterm(v)))

    def s_Break(self, s, st, fr):
        fr.loops[-1]["brk"].append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["cont"].append(st)
        return None

    def s_While(self, s, st, fr):
        """Havoc summary: everything the body may change is opaque afterwards."""
        idx = self._while_as_for(s)
        pre = st
        H: set = set()
        tag = mk("while", fr.module.rel, s.lineno)
        e = mk("iter", fr.func.qual if fr.func else "", s.lineno)
        for rnd in range(6):
            start = pre.copy()
            self._havoc(start, [h for h in H if h[0] != "newvar"], e, tag)
            for h in H:
                if h[0] == "hitems" and h[1] in start.heap:
                    start.heap[h[1]] = start.heap[h[1]].with_(items=(splat(self._loopin(e, tag, h)),))
            s0 = start.copy()
            logmark, retmark, raisemark = len(self.log), len(fr.returns), len(self.raise_stack[-1])
            fr.loops.append({"brk": [], "cont": []})
            self.ctx = self.ctx + ((e, tag),)
            try:
                c = self.cond(s.test, start, fr)
                a, b = self.split(start, c)
                r = self.exec_block(s.body, a, fr) if a is not None else None
            except Unreachable:
                a, b, r = None, None, None
            finally:
                self.ctx = self.ctx[:-1]
                lp = fr.loops.pop()
            end = self.merge([r] + lp["cont"])
            changed = set()
            for x in [end] + lp["brk"]:
                if x is not None:
                    changed |= self._diff(s0, x, e)
            new = {c2 for c2 in changed if c2 not in H}
            typed = end is not None and rnd < 5 and any([self._learn_type(e, tag, h, end, pre) for h in H | new if h[0] in ("var", "hattr")])
            if not typed and not {c2 for c2 in new if c2[0] != "newvar"} or rnd == 5:
                break
            H |= new
            del self.log[logmark:]
            del fr.returns[retmark:]
            del self.raise_stack[-1][raisemark:]
        outs = []
        if b is not None:
            if s.orelse:
                b = self.exec_block(s.orelse, b, fr)
            outs.append(b)
        outs += lp["brk"]
        out = self.merge(outs)
        return out

    def _while_as_for(self, s):
        return None

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.envs[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                self.eff("mutate", st, (self.freeze(o, st), "slice"), t, fr)
                for g, l in alts(o):
                    if l.op == "ref" and st.heap[l].kind == "list" and t.slice.lower is None and t.slice.upper is None and len(alts(o)) == 1:
                        its, od = self.as_items(v, st, fr, t)
                        st.heap[l] = st.heap[l].with_(items=its, order=od)
                    elif l.op == "ref":
                        self._havoc_container(l, st)
                return
            k = self.ev(t.slice, st, fr)
            self.setitem(o, k, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, elts, v, st, fr):
        n = len(elts)
        star = next((i for i, x in enumerate(elts) if isinstance(x, ast.Starred)), None)
        parts = [[] for _ in range(n)]
        al = alts(v)
        for g, l in al:
            vals = None
            if l.op == "ref":
                h = st.heap[l]
                if h.kind in ("tuple", "list") and all(i.op == "one" and i.args[0].args[0] == TRUE for i in h.items):
                    vals = [val_of(i.args[1]) for i in h.items]
            elif l.op == "c" and isinstance(cval(l), str):
                vals = [C(x) for x in cval(l)]
            elif l.op == "lst" and l.args[0] in ("tuple", "list") and all(i.op == "one" and i.args[0].args[0] == TRUE for i in l.args[1]):
                vals = [val_of(i.args[1]) for i in l.args[1]]
            if vals is not None and star is not None and len(vals) >= n - 1:
                k = len(vals) - (n - 1)
                vals = vals[:star] + [self.new_list(st, [one(TRUE, x) for x in vals[star:star + k]])] + vals[star + k:]
            if vals is None or len(vals) != n:
                tys = [None] * n
                if l.ty is not None:
                    for a in l.ty:
                        if a[0] == "tuple" and len(a[1]) == n:
                            tys = a[1]
                        elif a[0] == "list":
                            tys = [a[1]] * n
                fl = self.freeze(l, st)
                vals = [mk("item", fl, i, ty=tys[i]) for i in range(n)]
            for i in range(n):
                parts[i].append((g, vals[i]))
        for i, x in enumerate(elts):
            val = gate([(band(g, g2), l2) for g, vv in parts[i] for g2, l2 in alts(vv)])
            self.assign(x.value if isinstance(x, ast.Starred) else x, val, st, fr)

    def setattr(self, o, name, v, st, fr, node):
        al = alts(o)
        for g, l in al:
            cur_g = band(st.pc, g)
            if cur_g == FALSE:
                continue
            full = len(al) == 1
            if l.op == "ref":
                h = st.heap[l]
                if h.kind == "inst":
                    setter = self.prog.find_setter(h.cls, name)
                    if setter is not None:
                        self.call_func(setter, [l, v], {}, st, fr, node)
                        continue
                if h.kind == "xml":
                    if name in ("text", "tag", "tail"):
                        nv = v if full else vite(g, v, h.attrs.get(name, NONE))
                        st.heap[l] = h.set_attr(name, nv)
                    continue
                old = h.attrs.get(name)
                nv = v if full else vite(g, v, old if old is not None else mk("unbound"))
                st.heap[l] = h.set_attr(name, nv)
                if h.proto is not None or h.site == "input":
                    self.eff("setattr", st, (l, name, v), node, fr)
            elif l.op == "cls" or l.op in ("mod", "ext"):
                self.eff("setglobal", st, (l, name), node, fr)
            elif is_const(l):
                if cval(l) is None:
                    self.none_error(g, st, fr, node)
                continue
            else:
                done = False
                if l.ty is not None:
                    cls_ = [self.prog.classes.get(a[1]) for a in l.ty if a[0] == "cls"]
                    cls_ = [c for c in cls_ if c is not None]
                    for c in cls_:
                        setter = self.prog.find_setter(c, name)
                        if setter is not None:
                            self.call_func(setter, [l, v], {}, st, fr, node)
                            done = True
                            break
                if done:
                    continue
                self.eff("setattr", st, (l, name, self.freeze(v, st)), node, fr)
                old = st.store.get((l, name))
                if old is None:
                    old = self.sym_attr(l, name)
                st.store[(l, name)] = v if full else vite(g, v, old)

    def setitem(self, o, k, v, st, fr, node):
        al = alts(o)
        for g, l in al:
            if l.op == "ref":
                h = st.heap[l]
                gi = TRUE if len(al) == 1 else g
                if h.kind == "dict":
                    st.heap[l] = h.with_(items=h.items + (mk("kv", bterm(gi), gterm(k), gterm(v)),))
                elif h.kind == "xmlattrib":
                    el = h.extra
                    eh = st.heap[el]
                    st.heap[el] = eh.with_(extra=eh.extra + (mk("kv", bterm(gi), gterm(k), gterm(v)),))
                elif h.kind == "list" and is_const(k) and all(i.op == "one" for i in h.items) and isinstance(cval(k), int) and -len(h.items) <= cval(k) < len(h.items):
                    its = list(h.items)
                    its[cval(k)] = one(TRUE, v)
                    st.heap[l] = h.with_(items=tuple(its))
                else:
                    self._havoc_container(l, st)
            else:
                self.eff("mutate", st, (self.freeze(l, st), "setitem"), node, fr)
                self.mutated(st, l, "setitem", [k, v])

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note(f"expression {type(e).__name__} not modelled", e, fr)
            return mk("opaque", type(e).__name__, fr.module.rel, e.lineno)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return mk("ellipsis")
        return C(e.value)

    def e_Name(self, e, st, fr):
        v = self.lookup_name(e.id, st, fr, e)
        if isinstance(v, T) and (v.op == "unbound" or v.op == "unknown" and v.args == (e.id,) and not self.may_be_bound(e.id, fr)):
            self.do_raise(st, mk("exc", "UnboundLocalError" if v.op == "unbound" else "NameError"), e, fr)
            raise Unreachable()
        return self.force(v, st)

    def may_be_bound(self, name, fr):
        """some construct may bind the name where it is used although the analysis does not know its value"""
        if name.startswith("__") or name in fr.module.names or "*" in fr.module.names or fr.func is None:
            return True
        f = fr.func
        while f is not None:
            for n in ast.walk(f.node):
                if (isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) or isinstance(n, ast.arg) and n.arg == name
                        or isinstance(n, ast.alias) or getattr(n, "name", None) == name or isinstance(n, (ast.Global, ast.Nonlocal))):
                    return True
            f = f.parent
        tree = fr.module.tree
        return any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) or isinstance(n, ast.Name) and n.id in ("globals", "exec", "setattr")
                   for n in ast.walk(tree))

    def lookup_name(self, name, st, fr, node=None):
        fid = fr.fid
        f = fr
        env = st.envs.get(fid)
        seen = 0
        while env is not None and seen < 20:
            if name in env:
                v = env[name]
                if isinstance(v, G):
                    v = vrestrict(v, st.pc)
                    if isinstance(v, G):
                        v2 = gate([(g, l) for g, l in v.alts if l.op != "unbound"])
                        v = v2
                return v
            p = env.get("__parent__")
            if p is None:
                break
            env = st.envs.get(p)
            seen += 1
        return self.module_name(fr.module, name)

    def module_name(self, module, name):
        r = self.prog.lookup(module, name)
        if r is None:
            if hasattr(builtins, name):
                return mk("bi", name)
            if name == "__file__":
                return C("/@/" + module.rel)
            if name == "__name__":
                return C(module.name)
            return mk("unknown", name)
        return self.resolved(r, name, module, name)

    def resolved(self, r, dotted, module, name):
        if r is None:
            return mk("unknown", dotted)
        if r[0] == "class":
            return mk("cls", r[1].qual)
        if r[0] == "func":
            return self.func_value(r[1])
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "assign":
            return self.eval_module_const(r[2], r[1])
        return mk("unknown", dotted)

    def eval_module_const(self, module, expr):
        key = (module.name, id(expr))
        if key in self.modcache:
            v = self.modcache[key]
            return v if v is not None else mk("unknown", ast.unparse(expr))
        self.modcache[key] = None
        return ("__expr__", module, expr)

    def mkfn(self, f, fid=None):
        key = (f.qual, id(f.node), fid)
        t = mk("fn", f.qual, id(f.node), fid if fid is not None else -1)
        self.fntab[t] = (f, fid)
        return t

    def func_value(self, f):
        return self.mkfn(f)

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, e.attr, st, fr, e)

    def getattr(self, o, name, st, fr, node):
        o = vrestrict(o, st.pc) if isinstance(o, G) else o
        if not isinstance(o, G):
            return self.getattr_leaf(o, name, st, fr, node)
        out = []
        for g, l in o.alts:
            if band(g, st.pc) == FALSE:
                continue
            if is_const(l) and cval(l) is None:
                self.none_error(g, st, fr, node)
                continue
            if l.op in ("unbound", "bottom"):
                continue
            r = self.getattr_leaf(l, name, st, fr, node)
            out += [(band(g, g2), l2) for g2, l2 in alts(r)]
        return gate(out)

    def none_error(self, g, st, fr, node):
        """an attribute of None is used where g holds"""
        g = band(g, st.pc)
        if g == FALSE or not theory.feasible(g, self.prog):
            return
        self.do_raise(st.copy(g), mk("exc", "AttributeError"), node, fr)
        st.pc = band(st.pc, bnot(g))
        if st.pc == FALSE:
            raise Unreachable()

    def only_init_sets(self, c, name):
        """an instance whose constructor did not set the attribute lacks it"""
        if any(isinstance(b, str) and b.split(".")[-1] not in ("object", "ABC") for k in self.prog.mro(c) for b in k.bases) or c.is_dataclass:
            return False
        sets = False
        for k in self.prog.mro(c):
            for m in k.methods.values():
                if m.name in ("__getattr__", "__getattribute__"):
                    return False
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Load):
                        if m.name != "__init__":
                            return False
                        sets = True
                    elif isinstance(n, ast.Name) and n.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                        return False
        return sets

    def enum_member(self, c, n):
        return mk("enum", c.qual, n, ty=ty(("cls", c.qual)))

    def class_attr(self, c, name, st, fr, node, inst=None):
        if self.prog.is_enum(c):
            for n, e in self.prog.enum_members(c):
                if n == name:
                    return self.enum_member(c, n)
        m = self.prog.find_method(c, name)
        if m is not None:
            return self.bind_method(m, c, inst, st, fr, node)
        if name in c.inner:
            return mk("cls", c.inner[name].qual)
        a = self.prog.find_class_attr(c, name)
        if a is not None:
            k, expr = a
            return self.eval_in_module(expr, k.module, st, k)
        if name in ("__name__", "__qualname__"):
            return C(c.name)
        if name == "__members__" and self.prog.is_enum(c):
            return self.new_list(st, [mk("kv", bterm(TRUE), C(n), self.enum_member(c, n)) for n, _ in self.prog.enum_members(c)], kind="dict")
        return None

    def bind_method(self, m, c, inst, st, fr, node):
        decs = m.decorators
        base = self.mkfn(m)
        for d in reversed(m.node.decorator_list):
            if dec_plain(d):
                continue
            nm = dec_last(d)
            if nm in ("staticmethod", "classmethod", "property", "cached_property", "setter", "abstractmethod", "overload", "override", "cache", "lru_cache", "wraps", "final"):
                continue
            # a decorator of the tree: evaluate it in the class scope
            dv = self.eval_decorator(d, m, c, st, fr)
            if dv is not None:
                base = self.call(dv, [base], {}, st, fr, node)
        if "staticmethod" in decs:
            return base
        if "classmethod" in decs:
            return mk("meth", gterm(base), mk("cls", c.qual))
        if "property" in decs or "cached_property" in decs or "functools.cached_property" in decs:
            if inst is None:
                return base
            return ("__property__", m)
        if inst is None:
            return base
        return mk("meth", gterm(base), inst)

    def eval_decorator(self, d, m, c, st, fr):
        n = d.func if isinstance(d, ast.Call) else d
        if isinstance(n, ast.Name) and n.id in c.methods:
            v = self.mkfn(c.methods[n.id])
        else:
            r = self.prog.resolve_expr(m.module, n)
            if r is None or r[0] not in ("func", "class"):
                return None
            v = self.resolved(r, "", m.module, "")
        if isinstance(d, ast.Call):
            f2 = Frame(None, -1, m.module, None)
            v = self.call(v, [self.ev(a, st, fr) for a in d.args], {k.arg: self.ev(k.value, st, fr) for k in d.keywords}, st, fr, d)
        return v

    def eval_in_module(self, expr, module, st, cls=None):
        key = ("m", module.name, id(expr))
        fid = self._module_frame(module, st)
        f2 = Frame(None, fid, module, cls)
        if cls is not None:
            # class scope: bare names refer to earlier class attributes
            st.envs[fid] = dict(st.envs[fid])
            for n in ast.walk(expr):
                if isinstance(n, ast.Name) and n.id in cls.attrs and cls.attrs[n.id] is not expr and n.id not in st.envs[fid]:
                    st.envs[fid][n.id] = self.eval_in_module(cls.attrs[n.id], module, st, None)
        return self.ev(expr, st, f2)

    def _module_frame(self, module, st):
        self.fid += 1
        st.envs[self.fid] = {}
        return self.fid

    def getattr_leaf(self, t, name, st, fr, node):
        o = t.op
        if isinstance(t, tuple):
            return mk("unknown", name)
        if name in ("parent", "name", "stem", "suffix") and is_const(t) and isinstance(cval(t), str):
            from . import models
            return models.path_part(t, name)  # a pathlib path is represented by its text
        if o == "g":
            return self.getattr(val_of(t), name, st, fr, node)
        if o == "ref":
            h = st.heap[t]
            if h.kind == "inst":
                if name in h.attrs:
                    v = h.attrs[name]
                    return vrestrict(v, st.pc)
                if name == "__class__":
                    return mk("cls", h.cls.qual)
                if name == "__dict__":
                    return self.new_list(st, [mk("kv", bterm(TRUE), C(k), gterm(v)) for k, v in h.attrs.items()], kind="dict")
                r = self.class_attr(h.cls, name, st, fr, node, inst=t)
                if isinstance(r, tuple) and r[0] == "__property__":
                    return self.call_func(r[1], [t], {}, st, fr, node)
                if r is not None:
                    return r
                if h.proto is not None:
                    return self.getattr(h.proto, name, st, fr, node)
                if self.only_init_sets(h.cls, name):
                    self.do_raise(st.copy(st.pc), mk("exc", "AttributeError"), node, fr)
                    raise Unreachable()
                return mk("attr", t, name, ty=self.prog.attr_type(h.cls, name))
            if h.kind == "xml":
                if name in ("text", "tag", "tail"):
                    return h.attrs.get(name, NONE)
                if name == "attrib":
                    return self.alloc(st, "xmlattrib", extra=t)
                return mk("bm", t, name)
            return mk("bm", t, name)
        if o == "cls":
            c = self.prog.classes.get(t.args[0])
            r = self.class_attr(c, name, st, fr, node) if c is not None else None
            if r is not None:
                return r
            return mk("bm", t, name)
        if o == "mod":
            if t.args[0] in self.prog.modules:
                r = self.prog.lookup_from(t.args[0], name)
                v = self.resolved(r, f"{t.args[0]}.{name}", self.prog.modules[t.args[0]], name)
                return self.force(v, st)
            sub = f"{t.args[0]}.{name}"
            if any(m == sub or m.startswith(sub + ".") for m in self.prog.modules):
                return mk("mod", sub)
            return mk("ext", sub)
        if o in ("ext", "bi"):
            return mk("ext", f"{t.args[0]}.{name}")
        if o == "enum":
            c = self.prog.classes[t.args[0]]
            if name in ("value", "_value_"):
                for n, e in self.prog.enum_members(c):
                    if n == t.args[1]:
                        if isinstance(e, ast.Constant):
                            return C(e.value)
                        return mk("enumval", t.args[0], n, ty=T_INT)
            if name == "name":
                return C(t.args[1])
            r = self.class_attr(c, name, st, fr, node, inst=t)
            if isinstance(r, tuple):
                return self.call_func(r[1], [t], {}, st, fr, node)
            return r if r is not None else mk("attr", t, name)
        if o == "meth":
            if name == "__func__":
                return t.args[0]
            if name == "__self__":
                return t.args[1]
            return mk("attr", t, name)
        if o == "fn":
            if name in ("__name__", "__qualname__"):
                return C(self.fntab[t][0].name)
            return mk("attr", t, name)
        if o == "dcfield":
            if name == "name":
                return C(t.args[0])
            return mk("attr", t, name)
        if o == "c":
            if cval(t) is None:
                return mk("bottom")
            return mk("bm", t, name)
        if o == "bottom":
            return t
        if o == "typeof" and name == "__name__":
            return mk("attr", t, name, ty=T_STR)
        # symbolic object
        if (t, name) in st.store:
            return vrestrict(st.store[(t, name)], st.pc)
        if t.ty is not None:
            rest = [a for a in t.ty if a != ("none",)]
            if rest and all(a[0] == "cls" for a in rest):
                res = []
                for a in sorted(rest):
                    c = self.prog.classes.get(a[1])
                    if c is None:
                        continue
                    en = self.prog.is_enum(c)
                    if en and name in ("value", "name"):
                        if t.op == "enumv" and name == "value":
                            res.append((a, t.args[1]))
                        else:
                            res.append((a, self.sym_attr(t, name)))
                        continue
                    m = self.prog.find_method(c, name)
                    if m is None and any(name == f[0] for f in self.prog.dc_fields(c)):
                        res.append((a, self.sym_attr(t, name)))
                        continue
                    if m is None:
                        at = self.prog.attr_type(c, name)
                        if at is not None:
                            res.append((a, self.sym_attr(t, name)))
                            continue
                    r = self.class_attr(c, name, st, fr, node, inst=t) if m is not None else None
                    if isinstance(r, tuple) and r[0] == "__property__":
                        r = self.call_func(r[1], [t], {}, st, fr, node)
                    if r is None and m is None:
                        ca = self.prog.find_class_attr(c, name)
                        r = self.class_attr(c, name, st, fr, node, inst=t) if ca is not None and not en else self.sym_attr(t, name)
                    res.append((a, r))
                if res:
                    if all(r is res[0][1] for _, r in res):
                        return res[0][1]
                    return gate([(band(self.isinst_leaf(t, mk("cls", a[1]), st), g), l) for a, r in res for g, l in alts(r)])
            if rest and all(a[0] in ("xml",) for a in rest):
                if name == "text":
                    return mk("text", t, ty=opt(T_STR))
                if name == "tag":
                    return mk("tag", t, ty=T_STR)
                if name == "tail":
                    return mk("tail", t, ty=opt(T_STR))
                if name == "sourceline":
                    return mk("attr", t, name, ty=opt(T_INT))
                if name == "attrib":
                    return mk("xattrib", t)
                if name == "nsmap":
                    return mk("nsmap", t)
                return mk("bm", t, name)
            if rest and all(a[0] in ("str", "list", "dict", "set", "tuple", "int", "bytes", "tree", "match", "bool") for a in rest):
                return mk("bm", t, name)
        if t.op in ("xattrib", "nsmap", "opaque", "ext", "extv"):
            return mk("bm", t, name)
        return self.sym_attr(t, name)

    def force(self, v, st):
        if isinstance(v, tuple) and v and v[0] == "__expr__":
            _, module, expr = v
            key = (module.name, id(expr))
            self.modcache.pop(key, None)
            return self.eval_in_module(expr, module, st)
        return v

    # -------------------------------------------------------------- operators
    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            go_on = c if is_and else bnot(c)
            if band(s.pc, go_on) == FALSE:
                return v
            if band(s.pc, bnot(go_on)) == FALSE:
                return go(i + 1, s)
            s2 = s.copy(band(s.pc, go_on))
            stop = s.copy(band(s.pc, bnot(go_on)))
            try:
                r = go(i + 1, s2)
            except Unreachable:
                s.assign_from(stop)
                return v
            m = self.merge([stop, s2])
            s.assign_from(m)
            return self._falsy_simplify(vite(go_on, r, v), s)

        return vrestrict(go(0, st), st.pc)

    def _falsy_simplify(self, v, st):
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return bval(bnot(self.truth(v, st)))

        def f(l):
            if is_const(l) and isinstance(cval(l), int):
                x = cval(l)
                return C(-x if isinstance(e.op, ast.USub) else ~x if isinstance(e.op, ast.Invert) else +x)
            if isinstance(e.op, ast.USub):
                return aff_scale(l, -1)
            if isinstance(e.op, ast.UAdd):
                return l
            return mk("invert", l, ty=T_INT)

        return vmap(f, v, st.pc)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        return self.fork_expr(c, lambda s: self.ev(e.body, s, fr), lambda s: self.ev(e.orelse, s, fr), st)

    def fork_expr(self, c, fa, fb, st):
        p1, p2 = band(st.pc, c), band(st.pc, bnot(c))
        from .theory import feasible

        if p2 == FALSE or (p1 != FALSE and not feasible(p2, self.prog)):
            return fa(st)
        if p1 == FALSE or not feasible(p1, self.prog):
            return fb(st)
        s1, s2 = st.copy(p1), st.copy(p2)
        va = vb = None
        try:
            va = fa(s1)
        except Unreachable:
            s1 = None
        try:
            vb = fb(s2)
        except Unreachable:
            s2 = None
        m = self.merge([s for s in (s1, s2) if s is not None])
        if m is None:
            st.pc = FALSE
            raise Unreachable()
        st.assign_from(m)
        if va is None or s1 is None or s1.pc == FALSE:
            return vb
        if vb is None or s2 is None or s2.pc == FALSE:
            return va
        return vrestrict(vite(c, va, vb), st.pc)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            out = band(out, self.compare(op, left, right, st, e, fr))
            left = right
        return bval(restrict(out, st.pc) if out not in (TRUE, FALSE) else out)

    def compare(self, op, a, b, st, node, fr):
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return bnot(self.eq(a, b, st))
        if isinstance(op, (ast.Is, ast.IsNot)):
            out = FALSE
            for g1, l1 in alts(a):
                for g2, l2 in alts(b):
                    g = band(g1, g2)
                    if g == FALSE:
                        continue
                    if is_const(l2) and cval(l2) is None:
                        r = is_none(l1)
                    elif is_const(l1) and cval(l1) is None:
                        r = is_none(l2)
                    elif l1.op == "ref" and l2.op == "ref":
                        r = TRUE if l1 is l2 else FALSE
                    elif is_const(l2) and isinstance(cval(l2), bool):
                        r = self.is_bool(l1, cval(l2), st)
                    else:
                        r = self.eq_leaves(l1, l2, st)
                    out = bor(out, band(g, r))
            return bnot(out) if isinstance(op, ast.IsNot) else out
        if isinstance(op, ast.In):
            return self.contains(a, b, st)
        if isinstance(op, ast.NotIn):
            return bnot(self.contains(a, b, st))
        out = FALSE
        for g1, l1 in alts(a):
            for g2, l2 in alts(b):
                g = band(g1, g2, )
                if g == FALSE:
                    continue
                if self._is_set(l1, st) and self._is_set(l2, st):
                    from . import models
                    x, y = (l1, l2) if isinstance(op, (ast.Lt, ast.LtE)) else (l2, l1)
                    r = models._subset(self, x, y, st, None, None)
                    if isinstance(op, (ast.Lt, ast.Gt)):
                        r = band(r, bnot(models._subset(self, y, x, st, None, None)))
                    out = bor(out, band(g, r))
                    continue
                out = bor(out, band(g, self.cmp_leaf(op, l1, l2, st)))
        return out

    def _is_set(self, l, st):
        return l.op == "ref" and st.heap[l].kind == "set" or l.op == "lst" and l.args[0] == "set"

    def is_bool(self, l, val, st):
        if is_const(l):
            return TRUE if cval(l) is val else FALSE
        t = tyof(l)
        if t is not None and t <= frozenset({("bool",), ("none",)}):
            tr = self.truth_leaf(l, st)
            return tr if val else band(bnot(tr), bnot(is_none(l)))
        return atom_bdd(mk("eq", l, C(val)))

    def cmp_leaf(self, op, a, b, st):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                return TRUE if {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]() else FALSE
            except TypeError:
                return FALSE
        ta, tb = tyof(a), tyof(b)
        if a.op == "ref" or b.op == "ref" or (ta and ("str",) in ta) or (tb and ("str",) in tb):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            fa, fb = self.freeze(a, st), self.freeze(b, st)
            lt = atom_bdd(mk("lt", fa, fb))
            if isinstance(op, (ast.Lt, ast.Gt)):
                return lt
            return bor(lt, self.eq_leaves(a, b, st))
        if isinstance(op, ast.Lt):
            return le0(aff_add(aff_add(a, b, -1), C(1)))
        if isinstance(op, ast.LtE):
            return le0(aff_add(a, b, -1))
        if isinstance(op, ast.Gt):
            return le0(aff_add(aff_add(b, a, -1), C(1)))
        return le0(aff_add(b, a, -1))

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e, fr)

    def binop(self, op, a, b, st, node, fr):
        out = []
        al, bl = alts(a), alts(b)
        if len(al) * len(bl) > 64:
            return mk("op", type(op).__name__, self.freeze(a, st), self.freeze(b, st))
        for g1, l1 in al:
            for g2, l2 in bl:
                g = band(g1, g2)
                if g == FALSE or band(g, st.pc) == FALSE:
                    continue
                if l1.op in ("bottom", "unbound") or l2.op in ("bottom", "unbound"):
                    continue
                r = self.binop_leaf(op, l1, l2, st, node, fr)
                out += [(band(g, g3), l3) for g3, l3 in alts(r)]
        return gate(out)

    def binop_leaf(self, op, a, b, st, node, fr):
        n = type(op).__name__
        if n == "Div" and ("str",) in (tyof(a) or ()) and ("str",) in (tyof(b) or ()):
            from . import models
            return models.path_join([a, b])
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "FloorDiv": lambda: x // y,
                     "Mod": lambda: x % y, "Pow": lambda: x ** y if abs(y) < 200 else None, "LShift": lambda: x << y if y < 200 else None,
                     "RShift": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Div": lambda: x / y}[n]()
                if r is not None and isinstance(r, (int, str, bytes, bool)):
                    return C(r)
            except Exception:
                return mk("bottom")
        if n == "BitOr" and (a.op in ("cls", "uniont", "bi", "ext") or b.op in ("cls", "uniont", "bi", "ext")) and a.op != "ref" and b.op != "ref":
            fl = lambda t: t.args if t.op == "uniont" else (t,)
            return mk("uniont", *(fl(a) + fl(b)))
        ta, tb = tyof(a), tyof(b)
        isstr = lambda t: t is not None and ("str",) in t
        if a.op == "ref" or b.op == "ref":
            ka = st.heap[a].kind if a.op == "ref" else None
            kb = st.heap[b].kind if b.op == "ref" else None
            if n == "Add" and (ka in ("list", "tuple") or kb in ("list", "tuple")):
                ia, oa = self.as_items(a, st, fr, node)
                ib, ob = self.as_items(b, st, fr, node)
                return self.new_list(st, ia + ib, kind=ka or kb, order=joined_order((oa, ob)))
            if ka == "set" or kb == "set":
                ia, _ = self.as_items(a, st, fr, node)
                ib, _ = self.as_items(b, st, fr, node)
                if n == "BitOr":
                    return self.new_list(st, ia + ib, kind="set")
                if n == "Sub":
                    return self.filter_items(a, st, fr, node, lambda v, s: bnot(self.contains(v, b, s)), "set")
                if n == "BitAnd":
                    return self.filter_items(a, st, fr, node, lambda v, s: self.contains(v, b, s), "set")
            if n == "BitOr" and (ka == "dict" or kb == "dict"):
                ha, hb = st.heap.get(a), st.heap.get(b)
                if ha and hb:
                    return self.new_list(st, ha.items + hb.items, kind="dict")
            if n == "Mult":
                return mk("op", "Mult", self.freeze(a, st), self.freeze(b, st))
        if n == "Add":
            if isstr(ta) or isstr(tb):
                return cat([a, b])
            if ta is not None and any(x[0] == "list" for x in ta) or tb is not None and any(x[0] == "list" for x in tb):
                ia, oa = self.as_items(a, st, fr, node)
                ib, ob = self.as_items(b, st, fr, node)
                return self.new_list(st, ia + ib, order=joined_order((oa, ob)))
            return aff_add(a, b)
        if n == "Sub":
            if a.op == "lst" or b.op == "lst" or (ta and any(x[0] == "set" for x in ta)):
                return mk("op", "Sub", self.freeze(a, st), self.freeze(b, st))
            return aff_add(a, b, -1)
        if n == "Mult":
            if is_const(b) and isinstance(cval(b), int):
                return aff_scale(a, cval(b)) if not isstr(ta) else mk("op", n, a, b, ty=T_STR)
            if is_const(a) and isinstance(cval(a), int):
                return aff_scale(b, cval(a)) if not isstr(tb) else mk("op", n, a, b, ty=T_STR)
            return mul(a, b)
        if n == "Mod" and isstr(ta):
            return self.percent_format(a, b, st)
        if n == "FloorDiv" and is_const(b):
            return int_op("floordiv", a, b)
        if n == "RShift" and is_const(b):
            return int_op("floordiv", a, C(1 << cval(b)))
        if n == "LShift" and is_const(b):
            return aff_scale(a, 1 << cval(b))
        if n == "LShift" and is_const(a):
            return aff_scale(int_op("pow2", b), cval(a))
        if n == "Pow" and is_const(a) and cval(a) == 2:
            return int_op("pow2", b)
        if n == "Mod":
            return int_op("mod%", a, b)
        if n == "BitAnd" and is_const(b) and isinstance(cval(b), int) and cval(b) >= 0 and (cval(b) + 1) & cval(b) == 0:
            return int_op("mod%", a, C(cval(b) + 1))
        return mk("op", n, self.freeze(a, st), self.freeze(b, st), ty=T_INT if n in ("BitAnd", "BitOr", "BitXor", "FloorDiv", "LShift", "RShift", "Pow") and ta == T_INT else None)

    def percent_format(self, a, b, st):
        if is_const(a) and isinstance(cval(a), str):
            import re

            vals = [b]
            if b.op == "ref" and st.heap[b].kind == "tuple":
                vals = [val_of(i.args[1]) for i in st.heap[b].items]
            parts = re.split(r"(%[#0-9]*[sdxXr])", cval(a).replace("%%", "\0"))
            out, k = [], 0
            for p in parts:
                if p.startswith("%") and k < len(vals):
                    out.append(self.fmt1(vals[k], p[1:], st))
                    k += 1
                elif p:
                    out.append(C(p.replace("\0", "%")))
            if k == len(vals):
                return self.cat_vals(out, st)
        return mk("op", "format", self.freeze(a, st), self.freeze(b, st), ty=T_STR)

    def fmt1(self, v, spec, st, conv=-1):
        def f(l):
            if spec in ("", "s"):
                return str_of(l, self)
            if spec in ("#x",):
                return mk("hex", l, ty=T_STR) if not is_const(l) else C(hex(cval(l))) if isinstance(cval(l), int) else l
            if spec in ("d",):
                return str_of(l, self)
            if is_const(l):
                try:
                    return C(format(cval(l), spec))
                except Exception:
                    pass
            return mk("format", self.freeze(l, st), spec, ty=T_STR)

        if conv == 114:
            return mk("repr", self.freeze(v, st), ty=T_STR)
        return vmap(f, v, st.pc)

    def cat_vals(self, parts, st):
        n = 1
        for p in parts:
            n *= len(alts(p))
        if n > 16:
            return cat([gterm(p) if isinstance(p, G) else p for p in parts])
        out = [(TRUE, [])]
        for p in parts:
            out = [(band(g, g2), acc + [l]) for g, acc in out for g2, l in alts(p) if band(g, g2) != FALSE]
        return gate([(g, cat(acc)) for g, acc in out])

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st, fr)
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, st, fr)
                    spec = cval(sp) if isinstance(sp, T) and is_const(sp) else None
                if spec is None:
                    parts.append(mk("format", self.freeze(x, st), "?", ty=T_STR))
                else:
                    parts.append(self.fmt1(x, spec, st, v.conversion))
        return self.cat_vals(parts, st)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # -------------------------------------------------------------- displays
    def e_Tuple(self, e, st, fr):
        return self.display(e, st, fr, "tuple")

    def e_List(self, e, st, fr):
        return self.display(e, st, fr, "list")

    def e_Set(self, e, st, fr):
        return self.display(e, st, fr, "set")

    def display(self, e, st, fr, kind):
        items, orders = [], []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                for g, l in alts(v):
                    its, od = self.as_items(l, st, fr, e)
                    orders.append(od)
                    items += [guard_item(i, g) if g != TRUE and i.op != "loopin" else i for i in its]
            else:
                items.append(one(TRUE, self.ev(x, st, fr)))
        return self.new_list(st, items, kind=kind, site=self.loc(e, fr), order=None if kind == "set" else joined_order(orders))

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                for g, l in alts(vv):
                    if l.op == "ref" and st.heap[l].kind == "dict":
                        items += list(st.heap[l].items)
                    else:
                        items.append(splat(self.freeze(l, st), g))
            else:
                items.append(mk("kv", bterm(TRUE), gterm(self.ev(k, st, fr)), gterm(vv)))
        return self.new_list(st, items, kind="dict")

    def e_Lambda(self, e, st, fr):
        f = Func(e, fr.module, None, f"{fr.func.qual if fr.func else fr.module.name}.<lambda>", fr.func)
        fr.keep = True
        return self.mkfn(f, fr.fid)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        if fr.yield_oid is not None:
            h = st.heap[fr.yield_oid]
            st.heap[fr.yield_oid] = h.with_(items=h.items + (one(TRUE, v),))
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if fr.yield_oid is not None:
            self.call_method_ref(fr.yield_oid, "extend", [v], {}, st, fr, e)
        return NONE

    def e_ListComp(self, e, st, fr):
        return self.comp(e, [e.elt], st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, [e.elt], st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, [e.elt], st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, [e.key, e.value], st, fr, "dict")

    def comp(self, e, elts, st, fr, kind):
        out = self.new_list(st, (), kind=kind)
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.envs[fr.fid].get(n) for n in names}

        def level(i, s, f):
            if i == len(e.generators):
                vs = [self.ev(x, s, f) for x in elts]
                h = s.heap[out]
                it = one(TRUE, vs[0]) if kind != "dict" else mk("kv", bterm(TRUE), gterm(vs[0]), gterm(vs[1]))
                s.heap[out] = h.with_(items=h.items + (it,))
                return s
            gen = e.generators[i]
            it = self.ev(gen.iter, s, f)

            def body(v, s2, f2):
                self.assign(gen.target, v, s2, f2)
                conds = list(gen.ifs)

                def filt(k, s3):
                    if k == len(conds):
                        return level(i + 1, s3, f2)
                    c = self.cond(conds[k], s3, f2)
                    a, b = self.split(s3, c)
                    ra = filt(k + 1, a) if a is not None else None
                    return self.merge([x for x in (ra, b) if x is not None])

                return filt(0, s2)

            r, brk = self.loop_over(it, s, f, body, e, out)
            return r

        r = level(0, st, fr)
        if r is None:
            st.pc = FALSE
            raise Unreachable()
        if r is not st:
            st.assign_from(r)
        for n in names:
            if saved[n] is None:
                st.envs[fr.fid].pop(n, None)
            else:
                st.envs[fr.fid][n] = saved[n]
        return out

    def filter_items(self, seq, st, fr, node, pred, kind="list"):
        out = self.new_list(st, (), kind=kind)

        def body(v, s, f):
            c = pred(v, s)
            a, b = self.split(s, c)
            if a is not None:
                h = a.heap[out]
                a.heap[out] = h.with_(items=h.items + (one(TRUE, v),))
            return self.merge([x for x in (a, b) if x is not None])

        r, _ = self.loop_over(seq, st, fr, body, node, out)
        if r is not None:
            st.assign_from(r)
        return out

    def map_items(self, seq, st, fr, node, fn, kind="list"):
        out = self.new_list(st, (), kind=kind)

        def body(v, s, f):
            r = fn(v, s)
            h = s.heap[out]
            s.heap[out] = h.with_(items=h.items + (one(TRUE, r),))
            return s

        r, _ = self.loop_over(seq, st, fr, body, node, out)
        if r is not None:
            st.assign_from(r)
        return out

    def as_items(self, v, st, fr, node):
        """items of a sequence value (copying shares the elements)"""
        al = alts(v)
        if len(al) == 1:
            its, od, kind = self.seq_items(al[0][1], st, node, fr)
            return tuple(its), od
        out = []
        for g, l in al:
            its, od, kind = self.seq_items(l, st, node, fr)
            for i in its:
                out.append(guard_item(i, g) if i.op in ("one", "each", "splat", "kv") else i)
        return tuple(out), None

    # -------------------------------------------------------------- subscripts
    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, fr) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st, fr) if e.slice.upper else NONE
            sp = self.ev(e.slice.step, st, fr) if e.slice.step else NONE
            return vmap(lambda l: self.slice_leaf(l, lo, hi, sp, st, fr, e), o, st.pc)
        k = self.ev(e.slice, st, fr)
        return self.subscript(o, k, st, fr, e)

    def slice_leaf(self, l, lo, hi, sp, st, fr, node):
        consts = all(isinstance(x, T) and is_const(x) for x in (lo, hi, sp))
        if l.op == "c" and consts and isinstance(cval(l), (str, bytes)):
            return C(cval(l)[cval(lo):cval(hi):cval(sp)])
        if l.op == "ref":
            h = st.heap[l]
            if consts and cval(lo) is None and cval(hi) is None:
                if cval(sp) is None:
                    return self.new_list(st, h.items, kind=h.kind, order=h.order)
                if cval(sp) == -1:
                    return self.new_list(st, h.items, kind=h.kind, order=(h.order or ()) + ("rev",))
            if consts and all(i.op == "one" and i.args[0].args[0] == TRUE for i in h.items) and h.order is None:
                return self.new_list(st, h.items[cval(lo):cval(hi):cval(sp)], kind=h.kind)
            if theory.BOUNDED and consts and cval(sp) in (None, 1) and h.order is None and h.kind in ("list", "tuple") and len(h.items) <= 8 \
                    and all(i.op == "one" for i in h.items) and all(x is None or isinstance(x, int) and abs(x) <= 8 for x in (cval(lo), cval(hi))):
                return self.new_list(st, _some_slice(h.items, cval(lo), cval(hi)), kind=h.kind)
        f = lambda v: self.freeze(v, st)
        from .models import outward

        return outward(f(l), lambda x: mk("slice", x, f(lo), f(hi), f(sp), ty=tyof(x)))

    def subscript(self, o, k, st, fr, node):
        out = []
        for g, l in alts(o):
            if band(g, st.pc) == FALSE or (is_const(l) and cval(l) is None):
                continue
            for g2, kl in alts(k):
                gg = band(g, g2)
                if gg == FALSE:
                    continue
                r = self.subscript_leaf(l, kl, st, fr, node, gg)
                out += [(band(gg, g3), l3) for g3, l3 in alts(r)]
        return gate(out)

    def subscript_leaf(self, l, k, st, fr, node, g=TRUE):
        if l.op == "cls":
            c = self.prog.classes.get(l.args[0])
            if c is not None and self.prog.is_enum(c):
                if is_const(k):
                    names = [n for n, _ in self.prog.enum_members(c)]
                    if cval(k) in names:
                        return self.enum_member(c, cval(k))
                    self.maybe_raise(st, g, "KeyError", node, fr, (k,))
                    return mk("bottom")
                if self.expand_enums:
                    return self.enum_lookup(c, k, [(n, n) for n, _ in self.prog.enum_members(c)], "KeyError", st, node, fr, g)
                t = mk("enumn", c.qual, k, ty=ty(("cls", c.qual)))
                self.maybe_raise(st, band(g, atom_bdd(mk("raises", "KeyError", t))), "KeyError", node, fr, (t,))
                return t
            return l  # generic alias
        if l.op in ("bi", "ext", "uniont"):
            return l
        if l.op == "ref":
            h = st.heap[l]
            if h.kind in ("list", "tuple", "xml") and is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                if all(x.op == "one" and x.args[0].args[0] == TRUE for x in h.items) and h.order is None:
                    if -len(h.items) <= i < len(h.items):
                        return val_of(h.items[i].args[1])
                    self.maybe_raise(st, g, "IndexError", node, fr, (k,))
                    return mk("bottom")
                return self.index_term(self.freeze(l, st), i, l, st)
            if h.kind == "dict":
                return self.dict_get(l, k, st, fr, node, None, g)
            if h.kind == "xmlattrib":
                return mk("xattr", self.freeze(h.extra, st), self.freeze(k, st), ty=opt(T_STR))
            if h.kind in ("list", "tuple"):
                return self.index_sym(l, h, k, st)
        if l.op == "c" and is_const(k) and isinstance(cval(l), (str, bytes)):
            try:
                return C(cval(l)[cval(k)])
            except Exception:
                return mk("bottom")
        if is_const(k) and isinstance(cval(k), int) and not (l.ty and any(a[0] == "dict" for a in l.ty)):
            return self.index_term(l, cval(k), None, st)
        if isinstance(k, T) and k.op == "idx" and k.args[1] is l:
            return k.args[0]
        if l.op == "xattrib":
            t = mk("xattr", l.args[0], k, ty=opt(T_STR))
            self.maybe_raise(st, band(g, is_none(t)), "KeyError", node, fr, (t,))
            t2 = mk("xattr", l.args[0], k, ty=opt(T_STR))
            return t2
        ety = None
        if l.ty is not None:
            for a in l.ty:
                if a[0] == "dict":
                    ety = a[2]
                elif a[0] in ("list",):
                    ety = a[1]
        if l.op == "nsmap":
            ety = T_STR
        fk = self.freeze(k, st)
        isdict = l.op in ("nsmap", "lst") or (l.ty is not None and any(a[0] == "dict" for a in l.ty))
        t = mk("dget" if isdict else "getitem", l, fk, ty=ety)
        if isdict:
            self.maybe_raise(st, band(g, bnot(self.contains(k, l, st))), "KeyError", node, fr, (t,))
        return t

    def index_term(self, t, i, ref, st):
        if t.op == "lst" and t.args[0] in ("tuple", "list") and -len(t.args[1]) <= i < len(t.args[1]) \
                and all(x.op == "one" and x.args[0].args[0] == TRUE for x in t.args[1]):
            return val_of(t.args[1][i].args[1])
        if i in (0, -1) and theory.BOUNDED and t.op == "lst" and t.args[0] in ("tuple", "list") and 0 < len(t.args[1]) <= 24 \
                and all(x.op == "one" for x in t.args[1]):
            out = mk("bottom")
            for x in (reversed(t.args[1]) if i == 0 else t.args[1]):
                out = vite(x.args[0].args[0], val_of(x.args[1]), out)
            return out
        ety = self.elem_ty(t)
        if t.ty is not None:
            for a in t.ty:
                if a[0] == "tuple" and -len(a[1]) <= i < len(a[1]):
                    ety = a[1][i]
                    return mk("item", t, i, ty=ety)
        if t.op == "reversed" and i in (0, -1):
            return self.index_term(t.args[0], -1 - i, None, st)
        if i == 0:
            return mk("first", t, ty=ety)
        if i == -1:
            return mk("last", t, ty=ety)
        return mk("getitem", t, C(i), ty=ety)

    def index_sym(self, ref, h, k, st):
        # xs[idx(e)] where e ranges over the same source
        if k.op == "idx" and h.order is None and len(h.items) == 1:
            it = h.items[0]
            if it.op == "each" and it.args[0].args[0] == TRUE and it.args[1] is k.args[0] and len(it.args[3]) == 1 \
                    and it.args[3][0].op == "one" and it.args[3][0].args[0].args[0] == TRUE:
                return val_of(it.args[3][0].args[1])
            if it.op == "splat" and it.args[1] is k.args[1]:
                return k.args[0]
        if h.order is None and all(x.op == "one" and x.args[0].args[0] == TRUE for x in h.items) and 0 < len(h.items) <= 16:
            return gate([(self.eq_leaves(k, C(i), st), val_of(x.args[1])) for i, x in enumerate(h.items) if not isinstance(val_of(x.args[1]), G)]) \
                if False else mk("getitem", self.freeze(ref, st), self.freeze(k, st))
        fl = self.freeze(ref, st)
        return mk("getitem", fl, self.freeze(k, st), ty=self.elem_ty(fl))

    def dict_get(self, d, k, st, fr, node, default, g=TRUE):
        h = st.heap[d]
        remaining = TRUE
        out = []
        exact = True
        for it in reversed(h.items):
            if it.op != "kv":
                exact = False
                break
            hit = band(it.args[0].args[0], self.eq(k, val_of(it.args[1]), st), remaining)
            if hit == FALSE:
                continue
            for g2, l2 in alts(val_of(it.args[2])):
                out.append((band(hit, g2), l2))
            remaining = band(remaining, bnot(hit))
            if remaining == FALSE:
                break
        if not exact:
            inn = self.contains_leaf(k, d, st)
            vt = mk("dget", self.freeze(d, st), self.freeze(k, st), ty=self._dict_vty(h))
            rest_hit = band(remaining, inn)
            out.append((rest_hit, vt))
            remaining = band(remaining, bnot(rest_hit))
        if default is None:
            if remaining != FALSE:
                self.maybe_raise(st, band(g, remaining), "KeyError", node, fr, (self.freeze(k, st),))
            return gate(out)
        out += [(band(remaining, g2), l2) for g2, l2 in alts(default)]
        return gate(out)

    def _dict_vty(self, h):
        if isinstance(h.extra, frozenset):
            for a in h.extra:
                if a[0] == "dict":
                    return a[2]
        return None

    def e_Slice(self, e, st, fr):
        return mk("opaque", "slice")

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.call_super(e, st, fr)
        f = self.ev(e.func, st, fr)
        f = self.force(f, st) if isinstance(f, tuple) else f
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                vals = self.known_items(v, st)
                if vals is None:
                    args.append(mk("star", self.freeze(v, st)))
                else:
                    args += vals
            else:
                args.append(self.ev(a, st, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                ok = False
                if isinstance(v, T) and v.op == "ref" and st.heap[v].kind == "dict":
                    ok = True
                    for it in st.heap[v].items:
                        if it.op == "kv" and it.args[0].args[0] == TRUE and is_const(it.args[1]):
                            kwargs[cval(it.args[1])] = val_of(it.args[2])
                        else:
                            ok = False
                if not ok:
                    kwargs["**"] = v
        if st.pc == FALSE:
            raise Unreachable()
        return self.call(f, args, kwargs, st, fr, e)

    def known_items(self, v, st):
        if isinstance(v, T) and v.op == "ref":
            h = st.heap[v]
            if h.kind in ("list", "tuple") and all(i.op == "one" and i.args[0].args[0] == TRUE for i in h.items) and h.order is None:
                return [val_of(i.args[1]) for i in h.items]
        return None

    def call_super(self, e, st, fr):
        c = fr.cls
        name = e.func.attr
        args = [self.ev(a, st, fr) for a in e.args]
        kwargs = {k.arg: self.ev(k.value, st, fr) for k in e.keywords if k.arg}
        selfv = None
        if fr.func is not None and fr.func.node.args.args:
            selfv = st.envs[fr.fid].get(fr.func.node.args.args[0].arg)
        if c is not None:
            for k in self.prog.mro(c)[1:]:
                if name in k.methods:
                    return self.call_func(k.methods[name], [selfv] + args, kwargs, st, fr, e)
        return NONE

    def call(self, f, args, kwargs, st, fr, node):
        if isinstance(f, tuple):
            f = self.force(f, st)
        if not isinstance(f, G):
            return self.call_leaf(f, args, kwargs, st, fr, node)
        al = [(g, l) for g, l in f.alts if band(g, st.pc) != FALSE and l.op not in ("bottom", "unbound") and not (is_const(l) and cval(l) is None)]
        if not al:
            raise Unreachable()
        if len(al) == 1:
            return self.call_leaf(al[0][1], args, kwargs, st, fr, node)
        outs, vals = [], []
        for g, l in al:
            s2 = st.copy(band(st.pc, g))
            try:
                v = self.call_leaf(l, args, kwargs, s2, fr, node)
            except Unreachable:
                continue
            outs.append(s2)
            vals += [(band(g, g2), l2) for g2, l2 in alts(v)]
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
            raise Unreachable()
        st.assign_from(m)
        return gate(vals)

    def call_leaf(self, f, args, kwargs, st, fr, node):
        o = f.op
        if o == "fn":
            fn, fid = self.fntab[f]
            return self.call_func(fn, args, kwargs, st, fr, node, closure=fid)
        if o == "meth":
            inner = f.args[0]
            if inner.op == "fn":
                fn, fid = self.fntab[inner]
                return self.call_func(fn, [f.args[1]] + args, kwargs, st, fr, node, closure=fid)
            return self.call(val_of(inner), [f.args[1]] + args, kwargs, st, fr, node)
        if o == "cls":
            return self.instantiate(f, args, kwargs, st, fr, node)
        if o == "partial":
            pa = [val_of(x) for x in f.args[1]]
            pk = {k: val_of(v) for k, v in f.args[2]}
            pk.update(kwargs)
            return self.call(val_of(f.args[0]), pa + args, pk, st, fr, node)
        if o in ("getter", "mgetter"):
            if o == "mgetter":
                m = self.getattr(args[0], f.args[0], st, fr, node)
                return self.call(m, [], {}, st, fr, node)
            outs = []
            for path in f.args[0]:
                v = args[0]
                for p in (path.split(".") if isinstance(path, str) else [path]):
                    v = self.getattr(v, p, st, fr, node) if isinstance(p, str) else self.subscript(v, C(p), st, fr, node)
                outs.append(v)
            return outs[0] if len(outs) == 1 else self.tuple_(st, outs)
        from . import models

        if o == "bi":
            return models.builtin(self, f.args[0], args, kwargs, st, fr, node)
        if o == "ext":
            return models.external(self, f.args[0], args, kwargs, st, fr, node)
        if o == "bm":
            recv = f.args[0]
            if recv.op == "ref":
                return self.call_method_ref(recv, f.args[1], args, kwargs, st, fr, node)
            return models.method(self, recv, f.args[1], args, kwargs, st, fr, node)
        if o == "attr":
            # method of an object of unknown class
            return models.unknown_method(self, f.args[0], f.args[1], args, kwargs, st, fr, node)
        fa = tuple(self.freeze(a, st) for a in args)
        self.eff("extcall", st, (show(f), fa), node, fr)
        if f.op == "sym" and self.traced:
            self.record(st, "given function", [f] + list(args) + [v for _, v in sorted(kwargs.items())])
        return mk("call", f, fa, tuple((k, self.freeze(v, st)) for k, v in sorted(kwargs.items())))

    def call_method_ref(self, recv, name, args, kwargs, st, fr, node):
        from . import models

        return models.ref_method(self, recv, name, args, kwargs, st, fr, node)

    def fdisp(self, f):
        return f.qual

    def call_func(self, f, args, kwargs, st, fr, node, closure=None):
        recursive = sum(x is f for x in self.callstack) >= self.rec_limit
        if f.qual in self.opaque or recursive or len(self.callstack) > MAX_DEPTH:
            fa = self.canon_args(f, args, kwargs, st)
            rty = self.prog.ann_type(f.module, getattr(f.node, "returns", None))
            kind = "rec" if recursive else "app"
            if f.qual in self.opaque:
                fa = tuple(x for x in fa if x[0] != "self")
            self.eff(kind, st, (f.qual, fa), node, fr)
            if f.qual in self.traced:
                names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
                named = {names[i] if i < len(names) else f"*{i}": v for i, v in enumerate(args)}
                named.update(kwargs)
                self.record(st, f.name, [v for k, v in sorted(named.items()) if k != "self"])
            elif recursive and self.traced:
                self.recursed.add(f)

                def key(v):
                    h = st.heap.get(v) if isinstance(v, T) and v.op == "ref" else None
                    return (0, h.cls.qual if h.cls else h.kind) if h is not None else (1, show(v) if isinstance(v, T) else "")
                vs = list(args) + list(kwargs.values())
                if f.cls is not None and "staticmethod" not in f.decorators:
                    vs = vs[1:]
                self.record(st, "recursion", sorted([v for v in vs if not (isinstance(v, T) and v.op == "ref" and v in st.heap and st.heap[v].site == "self")
                                                     and not (isinstance(v, T) and v.op == "sym" and v.args[0] == "self")], key=key))
            self.havoc_args(args, kwargs, st, f)
            if recursive and f.qual not in self.opaque:
                # named by what it returns and what it is applied to, so that the code's recursion and the
                # reference's recursion over the same elements are one term (induction)
                own = [x[1] for x in fa if x[0] == "self" and isinstance(x[1], T) and x[1].op == "ref"]
                vs = [v for o in own for v in st.heap[o].attrs.values() if isinstance(v, T)]
                vs = [self.freeze_shallow(v, st) for v in vs] + [x[1] for x in fa if x[0] != "self"]
                xs = sorted({v for v in vs if isinstance(v, T) and v is not NONE}, key=lambda x: x.uid)
                return self.sized(mk("rec", str(sorted(map(str, rty))) if rty else "", tuple(xs), ty=rty))
            return self.sized(mk("app", f.qual, fa, ty=rty))
        self.funcs_seen.add(f.qual)
        self.fid += 1
        nf = Frame(f, self.fid, f.module, f.cls or (fr.cls if f.parent is not None else None))
        env = {}
        if closure is not None and closure != -1:
            env["__parent__"] = closure
        if not self.bind_args(f, args, kwargs, env, st, fr, node, nf):
            fa = self.canon_args(f, args, kwargs, st)
            return mk("call", mk("fn", f.qual, id(f.node), -1), fa)
        st.envs[nf.fid] = env
        # narrow the types of opaque arguments by annotation
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(p.arg)
            if isinstance(v, T) and v.ty is None and v.op not in ("c", "ref", "cls", "fn", "meth", "bi", "ext", "mod") and p.annotation is not None:
                t = self.prog.ann_type(f.module, p.annotation)
                if t is not None:
                    v.ty = t
        self.callstack.append(f)
        self.catching.append([]) if False else None
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, nf)
                return v
            if f.is_gen:
                nf.yield_oid = self.new_list(st, ())
            end = self.exec_block(f.node.body, st, nf)
        finally:
            self.callstack.pop()
        rets = list(nf.returns)
        if end is not None:
            rets.append(Outcome(end, NONE, "", self.ctx, end.pc, "", ()))
        rets = [r for r in rets if r.st.pc != FALSE]
        if not rets:
            st.pc = FALSE
            raise Unreachable()
        m = self.merge([r.st for r in rets]) if len(rets) > 1 else rets[0].st
        if len(rets) == 1:
            v = rets[0].val
        else:
            pairs = []
            rem = m.pc
            v = rets[-1].val
            for r in reversed(rets[:-1]):
                c = restrict(r.st.pc, m.pc)
                v = vite(c, r.val, v)
            v = vrestrict(v, m.pc)
        st.assign_from(m)
        if nf.yield_oid is not None:
            v = nf.yield_oid
        if not nf.keep:
            st.envs.pop(nf.fid, None)
        if isinstance(v, T) and v.ty is None and v.op not in ("c", "ref", "cls", "fn"):
            t = self.prog.ann_type(f.module, getattr(f.node, "returns", None))
            if t is not None:
                v.ty = t
        return v

    def canon_args(self, f, args, kwargs, st):
        """arguments by parameter name"""
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        for i, v in enumerate(args):
            out[names[i] if i < len(names) else f"*{i}"] = v
        out.update(kwargs)
        return tuple((k, self.freeze_shallow(v, st)) for k, v in sorted(out.items()))

    def freeze_shallow(self, v, st):
        if isinstance(v, T) and v.op == "ref":
            h = st.heap.get(v)
            if h is not None and h.kind == "inst":
                if h.site == "self" or h.proto is None and not h.attrs:
                    return mk("self_", h.cls.qual)
                return v
        return self.freeze(v, st)

    def havoc_args(self, args, kwargs, st, f):
        for v in list(args) + list(kwargs.values()):
            for g, l in alts(v):
                if l.op == "ref" and l in st.heap and st.heap[l].kind in ("list", "set", "dict"):
                    # does the callee mutate this parameter?  conservative: only if it calls a mutator on it
                    if mutates_params(f):
                        self._havoc_container(l, st)

    def bind_args(self, f, args, kwargs, env, st, fr, node, nf):
        a = f.node.args
        pos = a.posonlyargs + a.args
        if any(isinstance(x, T) and x.op == "star" for x in args) or "**" in kwargs:
            self.note("opaque * / ** arguments", node, fr)
            return False
        kwargs = dict(kwargs)
        rest = []
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i].arg] = v
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = self.tuple_(st, rest)
        elif rest:
            return False
        for p in pos + a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_list(st, [mk("kv", bterm(TRUE), C(k), gterm(v)) for k, v in kwargs.items()], kind="dict")
        elif kwargs:
            return False
        # defaults
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd:], a.defaults):
            if p.arg not in env:
                env[p.arg] = self.eval_default(f, d, st, nf)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval_default(f, d, st, nf)
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                return False
        return True

    def eval_default(self, f, d, st, nf):
        if isinstance(d, ast.Constant):
            return C(d.value)
        return self.eval_in_module(d, f.module, st)

    def enum_lookup(self, c, k, keys, exc, st, node, fr, g=TRUE):
        out, left = [], TRUE
        for n, v in keys:
            e = self.eq(k, C(v), st)
            out.append((band(left, e), self.enum_member(c, n)))
            left = band(left, bnot(e))
        self.maybe_raise(st, band(g, left), exc, node, fr, (k,))
        return gate([(x, m) for x, m in out if x != FALSE] + [(left, mk("bottom"))])

    def instantiate(self, f, args, kwargs, st, fr, node):
        c = self.prog.classes[f.args[0]]
        anc = self.prog.base_names(c)
        if self.prog.is_enum(c):
            def g(l):
                if is_const(l):
                    for n, e in self.prog.enum_members(c):
                        if isinstance(e, ast.Constant) and e.value == cval(l) and type(e.value) is type(cval(l)):
                            return self.enum_member(c, n)
                    self.maybe_raise(st, TRUE, "ValueError", node, fr, (l,))
                    return mk("bottom")
                if l.op == "enum":
                    return l
                if l.op == "attr" and l.args[1] == "value" and l.args[0].ty == ty(("cls", c.qual)):
                    return l.args[0]
                if self.expand_enums and all(isinstance(e, ast.Constant) for _, e in self.prog.enum_members(c)):
                    return self.enum_lookup(c, l, [(n, e.value) for n, e in self.prog.enum_members(c)], "ValueError", st, node, fr)
                t = mk("enumv", c.qual, l, ty=ty(("cls", c.qual)))
                self.maybe_raise(st, atom_bdd(mk("raises", "ValueError", t)), "ValueError", node, fr, (t,))
                return t

            if not args:
                return mk("call", f, ())
            return self.per_alt(g, args[0], st)
        if "BaseException" in anc or "Exception" in anc or any(self.exc_ancestors(b) & {"Exception"} for b in anc if b in EXT_EXC_BASES):
            return mk("exc", c.qual, *[self.freeze(a, st) for a in args])
        if c.qual in self.opaque:
            fa = tuple(self.freeze(a, st) for a in args)
            self.eff("app", st, (c.qual, fa), node, fr)
            return mk("app", c.qual, fa, ty=ty(("cls", c.qual)))
        r = self.alloc(st, "inst", cls=c, site=self.loc(node, fr))
        if self.prog.is_dc(c) and self.prog.find_method(c, "__init__") is None:
            fields = self.prog.dc_fields(c)
            order = [x for x in fields if not self._is_init_false(x)]
            kwonly = lambda own: any(isinstance(d, ast.Call) and any(k.arg == "kw_only" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords) for d in own.dec_nodes)
            posf = [x for x in order if not kwonly(x[3])]
            attrs = {}
            for x, v in zip(posf, args):
                attrs[x[0]] = v
            unknown = None
            for k, v in kwargs.items():
                if k == "**":
                    unknown = v
                    continue
                attrs[k] = v
            for name, ann, default, own in fields:
                if name in attrs:
                    continue
                if unknown is not None:
                    attrs[name] = mk("kwget", self.freeze(unknown, st), name)
                    continue
                if default is None:
                    attrs[name] = mk("missing", c.qual, name)
                    self.eff("implicit", st, ("TypeError", f"missing argument {name} for {c.name}"), node, fr)
                    continue
                attrs[name] = self.dc_default(default, own, st)
            names = {x[0] for x in fields}
            for k in list(attrs):
                if k not in names:
                    self.eff("implicit", st, ("TypeError", f"unexpected argument {k} for {c.name}"), node, fr)
            st.heap[r] = st.heap[r].with_(attrs=attrs)
            pi = self.prog.find_method(c, "__post_init__")
            if pi is not None:
                self.call_func(pi, [r], {}, st, fr, node)
            self.eff("new", st, (r, c.qual), node, fr)
            return r
        init = self.prog.find_method(c, "__init__")
        if init is not None:
            self.call_func(init, [r] + args, kwargs, st, fr, node)
        return r

    def _is_init_false(self, x):
        d = x[2]
        return isinstance(d, ast.Call) and any(k.arg == "init" and isinstance(k.value, ast.Constant) and k.value.value is False for k in d.keywords)

    def dc_default(self, d, own, st):
        if isinstance(d, ast.Call) and dec_last(d) == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.eval_in_module(k.value, own.module, st)
                if k.arg == "default_factory":
                    f2 = Frame(None, self._module_frame(own.module, st), own.module, own)
                    return self.call(self.ev(k.value, st, f2), [], {}, st, f2, d)
            return mk("unbound")
        return self.eval_in_module(d, own.module, st)

    # -------------------------------------------------------------- roots
    def run(self, f: Func, args: dict, st=None, selfv=None):
        """Analyse f on symbolic arguments. -> (state, value, effects, uncaught outcomes)"""
        st = st or State()
        fr = Frame(None, -1, f.module, f.cls)
        st.envs[-1] = {}
        params = [p.arg for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        kw = {}
        decs = f.decorators
        pos = []
        i0 = 0
        if f.cls is not None and "staticmethod" not in decs and params:
            i0 = 1
            if selfv is None:
                if "classmethod" in decs:
                    selfv = mk("cls", f.cls.qual)
                else:
                    selfv = self.alloc(st, "inst", cls=f.cls, site="self")
            pos = [selfv]
        for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            if p.arg in params[:i0]:
                continue
            if p.arg in args:
                kw[p.arg] = args[p.arg]
            else:
                kw[p.arg] = sym(p.arg, self.prog.ann_type(f.module, p.annotation))
        mark = len(self.log)
        if self.traced:
            self.trace = self.new_list(st)
        self.raise_stack.append([])
        try:
            v = self.call_func(f, pos, kw, st, fr, f.node)
        except Unreachable:
            v = None
        raised = self.raise_stack.pop()
        return st, v, self.log[mark:], raised


def dec_plain(d):
    return dec_last(d) in ("overload", "override", "abstractmethod", "staticmethod", "classmethod", "property", "setter", "final", "no_type_check", "lru_cache", "cache", "wraps")


def dec_last(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return "?"


_mut: dict = {}


def mutates_params(f):
    r = _mut.get(id(f.node))
    if r is None:
        ps = {p.arg for p in f.node.args.args}
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ps \
                    and n.func.attr in ("append", "extend", "add", "update", "insert", "pop", "remove", "clear", "sort", "setdefault", "discard"):
                r = True
        _mut[id(f.node)] = r
    return r


def cat(parts):
    flat = []
    for p in parts:
        if p.op == "cat":
            flat += list(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if is_const(p) and cval(p) == "":
            continue
        if out and is_const(out[-1]) and is_const(p) and isinstance(cval(p), str) and isinstance(cval(out[-1]), str):
            out[-1] = C(cval(out[-1]) + cval(p))
        else:
            out.append(p)
    if not out:
        return C("")
    if len(out) == 1 and (is_const(out[0]) or tyof(out[0]) == T_STR):
        return out[0]
    return mk("cat", *out, ty=T_STR)


def str_of(l, I=None):
    if is_const(l):
        return C(str(cval(l)))
    t = tyof(l)
    if t == T_STR:
        return l
    if t == T_BOOL:
        b = atom_bdd(mk("tru", l))
        return G(((b, C("True")), (bnot(b), C("False"))))
    if t == opt(T_BOOL) and I is not None:
        b, n = atom_bdd(mk("tru", l)), I.isnone(l)
        return gate([(n, C("None")), (band(bnot(n), b), C("True")), (band(bnot(n), bnot(b)), C("False"))])
    if t == opt(T_STR) and I is not None:
        n = I.isnone(l)
        return gate([(n, C("None")), (bnot(n), l)])
    return mk("str", l, ty=T_STR)


def mul(a, b):
    ka, da = aff_parts(a)
    kb, db = aff_parts(b)
    if len(da) + (1 if ka else 0) > 1 or len(db) + (1 if kb else 0) > 1:
        # distribute
        out = C(0)
        terms_a = [(c, x) for x, c in da.items()] + ([(ka, None)] if ka else [])
        terms_b = [(c, x) for x, c in db.items()] + ([(kb, None)] if kb else [])
        for c1, x1 in terms_a:
            for c2, x2 in terms_b:
                if x1 is None and x2 is None:
                    t = C(c1 * c2)
                elif x1 is None or x2 is None:
                    t = aff_scale(x1 or x2, c1 * c2)
                else:
                    t = aff_scale(mul(x1, x2), c1 * c2)
                out = aff_add(out, t)
        return out
    (xa, ca), = da.items()
    (xb, cb), = db.items()
    fa = xa.args if xa.op == "mul" else (xa,)
    fb = xb.args if xb.op == "mul" else (xb,)
    return aff_scale(mk("mul", *sorted(fa + fb, key=lambda t: t.uid), ty=T_INT), ca * cb)
