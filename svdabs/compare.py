"""Comparison of two gated summaries (what the code computes / what the property
requires) under a guard.  Three-valued: equal, different (with a consistent guard
as witness), or undecided.
"""
from __future__ import annotations

import contextlib

from .core import *  # noqa: F401,F403
from . import core, theory
from .core import TooBig, is_const, cval, cubes, restrict
from .interp import val_of, guard_item, State
from . import arith, strings
from .theory import feasible, search, understood, consistent


class Diff:
    __slots__ = ("kind", "path", "a", "b", "wit", "why", "site")

    def __init__(self, kind, path, a, b, wit=None, why="", site=None):
        self.kind, self.path, self.a, self.b, self.wit, self.why, self.site = kind, path, a, b, wit, why, site

    def __repr__(self):
        w = ""
        if self.wit is not None:
            w = " when " + (" and ".join(("" if v else "not ") + show(a) for a, v in list(self.wit.items())[:12]) or "always")
        return f"{self.kind} {self.path}: code={_s(self.a)} required={_s(self.b)}{w}{' (' + self.why + ')' if self.why else ''}"


def _s(x):
    if x is None:
        return "-"
    if isinstance(x, int) and not isinstance(x, bool):
        return showb(x)[:600]
    return (show(x) if isinstance(x, T) else repr(x))[:400]


STRICT_SEQ = {"findall", "children", "attr", "elem", "sorted", "reversed", "sym", "range", "getroot", "first", "last", "lst"}


_uni: dict = {}


def unify(a, b, prog, depth=0) -> dict:
    """existential atoms of b that say the same as one of a (same collection, equivalent condition)"""
    if (a, b) in _uni:
        return _uni[(a, b)]
    out: dict = {}
    sa, sb = support(a), support(b)
    ea = [t for t in sa if t.op == "exists" and t not in sb]
    eb = [t for t in sb if t.op == "exists" and t not in sa]
    for y in eb:
        for x in ea:
            if x.args[0] is not y.args[0] or x.args[1] is not y.args[1]:
                continue
            ga, gb = canon(x.args[2].args[0]), canon(y.args[2].args[0])
            if depth < 8:
                m = unify(ga, gb, prog, depth + 1)
                if m:
                    ga, gb = _swap(ga, m), _swap(gb, m)
            d = ite(ga, bnot(gb), gb)
            try:
                if d == FALSE or search(d, prog, None, 20000) is None:
                    out[y] = x
                    break
            except TooBig:
                pass
    _uni[(a, b)] = out
    return out


def _swap(b, m):
    """replace atoms of b"""
    memo: dict = {}

    def go(n):
        if n <= 1:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = core._bnodes[n]
            at = core._atoms[v]
            r = memo[n] = ite(atom_bdd(m.get(at, at)), go(hi), go(lo))
        return r

    return go(b)


class Cmp:
    def __init__(self, prog, sta: State, stb: State, pc=TRUE, attrs=None, budget=20000, hook=None, und=None):
        self.prog, self.sta, self.stb = prog, sta, stb
        self.attrs = attrs  # {class name: (only names)} projection
        self.out: list[Diff] = []
        self.seen: set = set()
        self.n = 0
        self.budget = budget
        self.pc = pc
        self.hook = hook
        self.hook_pair = None
        self.und = und or understood
        self.max_out = 40
        self.sites: list = []
        self.pairs: set = set()
        self.compared = 0
        self.facts = TRUE

    # ------------------------------------------------------------------
    def _add(self, d):
        d.site = self.sites[-1] if self.sites else None
        self.out.append(d)

    @contextlib.contextmanager
    def knowing(self, facts):
        """what follows from the path condition about the member looked at: a difference must be possible with it"""
        old = self.facts
        for f in facts:
            self.facts = band(self.facts, f)
        try:
            yield
        finally:
            self.facts = old

    def ok_all(self):
        return not self.out

    def bools(self, a, b, path, pc=None, la=None, lb=None):
        """guards a and b must agree under pc"""
        pc = self.pc if pc is None else pc
        self.n += 1
        x = ite(a, bnot(b), b)
        d = band(x, pc)
        if d == FALSE:
            return True
        ca, cb = canon(a), canon(b)
        if True:
            x = ite(ca, bnot(cb), cb)
            d = band(x, pc)
            if d == FALSE or band(x, canon(pc)) == FALSE:
                return True
            m = unify(ca, cb, self.prog)
            if m:
                ua, ub = _swap(ca, m), _swap(cb, m)
                x = ite(ua, bnot(ub), ub)
                d = band(x, pc)
                if d == FALSE or band(x, _swap(canon(pc), m)) == FALSE:
                    return True
        return self._diff(d, path, la if la is not None else a, lb if lb is not None else b, x)

    def _diff(self, d, path, a, b, core_=None):
        """guard d says they differ"""
        if len(self.out) >= self.max_out:
            return False
        if self.facts != TRUE:
            if not feasible(band(d, self.facts), self.prog):
                return True
        try:
            w = self._witness(d, core_)
            if w is not None and self.facts != TRUE and not feasible(band(band(d, self.facts), _cube(w)), self.prog):
                raise TooBig()
        except TooBig:
            if feasible(d, self.prog):
                self._add(Diff("UNDECIDED", path, a, b, None, "guard too large"))
                return False
            return True
        if w is not None:
            self._add(Diff("VIOLATED", path, a, b, w))
            return False
        if feasible(d, self.prog):
            self._add(Diff("UNDECIDED", path, a, b, None, "difference depends on values the analysis does not interpret"))
            return False
        return True

    def _witness(self, d, core_):
        n = theory.toobig[0]
        w = self._witness1(d, core_)
        if w is not None and theory.toobig[0] != n:
            raise TooBig()
        if w is not None and not self._believable(w):
            for c in cubes(d, 60):
                if all(self.und(a) for a in c) and consistent(c, self.prog) and self._believable(c):
                    return c
            return None
        return w

    def _believable(self, w):
        return strings.trusted(w) and arith.trusted(w) and theory.ordinary(w, self.prog)

    def _strong(self, d):
        try:
            return theory.strong(d, self.prog, self.und)
        except TooBig:
            return None

    def _witness1(self, d, core_):
        """a consistent path of d; interpreted atoms only, except that atoms which merely describe how the
        point is reached may be opaque when the differing guard itself is interpreted"""
        if core_ is None or core_ == d:
            return search(d, self.prog, self.und, 3000) or self._strong(d)
        n = 0
        for c in cubes(core_, 200):
            n += 1
            if not all(self.und(a) for a in c) or not consistent(c, self.prog):
                continue
            cb = TRUE
            for a, v in c.items():
                ab = atom_bdd(a)
                cb = band(cb, ab if v else bnot(ab))
            r = band(d, cb)
            if r == FALSE:
                continue
            w = search(r, self.prog, None, 800)
            if w is not None and all(self.und(a) or a not in support(core_) for a in w):
                if all(self.und(a) for a in w):
                    return c
                # an opaque atom on the way: accept only if the guard does not depend on it
                w2 = search(r, self.prog, self.und, 800) or self._strong(r)
                if w2 is not None:
                    return c
        return None

    # ------------------------------------------------------------------
    def vals(self, va, vb, path, pc=None):
        pc = self.pc if pc is None else pc
        va, vb = _unbundle(va), _unbundle(vb)
        ok = True
        for ga, la in alts(va):
            p1 = band(pc, ga)
            if p1 == FALSE:
                continue
            for gb, lb in alts(vb):
                if la is lb:
                    continue
                p = band(p1, gb)
                if p == FALSE:
                    continue
                ok &= self.leaf(la, lb, path, p)
        return ok

    def leaf(self, a, b, path, pc):
        self.n += 1
        if a is b:
            return True
        if a.op == "bottom" or b.op == "bottom":
            return True
        if a.op == "g" or b.op == "g":
            return self.vals(a, b, path, pc)
        if self.n > self.budget:
            self._add(Diff("UNDECIDED", path, a, b, None, "budget"))
            return False
        if self.hook:
            r = self.hook(self, a, b, path, pc)
            if r is not None:
                return r
        ha, hb = self._h(a, self.sta), self._h(b, self.stb)
        if ha is not None and hb is not None:
            k = (a, b)
            if k in self.seen:
                return True
            if not feasible(pc, self.prog):
                return True
            self.seen.add(k)
            return self.objs(a, ha, b, hb, path, pc)
        if ha is not None or hb is not None:
            o = b if ha is not None else a
            h = ha or hb
            if not feasible(pc, self.prog):
                return True
            if is_const(o) or o.op == "enum":
                return self._diff(pc, path, self._d(a, ha), self._d(b, hb))
            if h.kind in ("list", "tuple", "set", "dict"):
                oi = _items_of(o)
                if oi is not None:
                    A = (ha.items, ha.order, ha.kind) if ha else oi
                    B = (hb.items, hb.order, hb.kind) if hb else oi
                    return self.seqs(A, B, path, pc)
            if h.kind == "inst" and o.op in ("sym", "attr", "elem") and self.und(o):
                return self._diff(pc, path, self._d(a, ha), self._d(b, hb))
            if h.kind == "xml" and o.op in ("sym", "attr", "elem", "app", "xmlel"):
                pass
            self._add(Diff("UNDECIDED", path, self._d(a, ha), self._d(b, hb), None, "object against opaque term"))
            return False
        if a.op == "lst" and b.op == "lst":
            return self.seqs((a.args[1], None, a.args[0]), (b.args[1], None, b.args[0]), path, pc)
        if a.op == b.op and a.op == "exc":
            return True if a.args[0] == b.args[0] else self._diff(pc, path, a, b)
        if a.op == "obj" and b.op == "obj":
            return self.frozen_objs(a, b, path, pc)
        if a.op == "app" and b.op == "app":
            r = self.apps(a, b, path, pc)
            if r is not None:
                return r
        if a.op == "rec" and b.op == "rec":
            r = self.rec_pair(a, b, path, pc)
            if r is not None:
                return r
        e = eq_leaf(a, b)
        ne = bnot(e)
        d = band(pc, ne)
        if d == FALSE:
            return True
        if not (self.und(a) and self.und(b)):
            r = self.parts(a, b, path, pc)
            if r is not None:
                return r
            if feasible(d, self.prog):
                self._add(Diff("UNDECIDED", path, a, b, None, "opaque value"))
                return False
            return True
        return self._diff(d, path, a, b)

    def parts(self, a, b, path, pc):
        """values built the same way but for one part: equal when the parts are, different when they are"""
        pa, pb = core.aff_parts(a), core.aff_parts(b)
        ra = {x: c for x, c in pa[1].items() if pb[1].get(x) != c}
        rb = {x: c for x, c in pb[1].items() if pa[1].get(x) != c}
        if pa[0] == pb[0] and len(ra) == 1 and len(rb) == 1 and (len(pa[1]) > 1 or len(pb[1]) > 1 or pa[0]):
            (x, c), (y, d) = *ra.items(), *rb.items()
            if c == d:
                return self.vals(x, y, path, pc)
        if a.op == "fold" and b.op == "fold" and a.args[:2] == b.args[:2]:
            # the extreme (or sum) of one collection of values: when the entries differ, so do these for a collection of one
            return self.align(self.expand(a.args[2], pc), self.expand(b.args[2], pc), path + f"<{a.args[0]} of>", pc, [60])
        for x, y in ((ra, rb), (rb, ra)):
            if len(x) == 1:
                f, = x
                if f.op == "fold" and f.args[0] in ("max", "min", "sum") and self.picked(f, mk("w", tuple(y))):
                    return self._diff(pc, path, a, b)
        return None

    def picked(self, agg, v):
        """agg depends on a stated value of every entry of a collection, v on that of the single entry it picks, by a
        rule that does not look at that value: the others are free to make the two differ"""
        picks: set = set()

        def top(t):
            if isinstance(t, tuple):
                return all(top(x) for x in t)
            if not isinstance(t, T):
                return True
            if t.op in ("first", "last") or t.op == "item" and not isinstance(t.args[1], T):
                picks.add(t)
                return True
            if t.op in ("fold", "opaque", "call", "carry", "lastv", "havoc", "loopout", "rec", "ref"):
                return False
            return all(top(x) for x in support(t.args[0])) if t.op == "b" else top(t.args)

        if not top(v) or not picks:
            return False
        bases = set()
        for p in picks:
            src, keys = p.args[0], []
            while src.op in ("sorted", "reversed", "lst", "slice"):
                if src.op == "sorted":
                    keys.append(src.args[1])
                    src = src.args[0]
                elif src.op == "lst":
                    it = src.args[1]
                    if len(it) != 1 or it[0].op not in ("each", "splat"):
                        return False
                    src = it[0].args[2] if it[0].op == "each" else it[0].args[1]
                else:
                    src = src.args[0]
            bases.add((src, tuple(keys)))
        if len(bases) != 1:
            return False
        (src, keys), = bases
        its = agg.args[2]
        if len(its) != 1 or its[0].op != "each":
            return False
        e, s2 = its[0].args[1], its[0].args[2]
        while s2.op in ("sorted", "reversed"):
            s2 = s2.args[0]
        if s2 is not src:
            return False
        want = {t.args[1] for t in theory._subterms(mk("w", its[0].args[3])) if t.op == "attr" and t.args[0] in (e, mk("elem", src))}
        seen = {t.args[1] for k in keys if isinstance(k, T) for t in theory._subterms(k) if t.op == "attr"}
        # the value itself, not only the condition under which an entry counts
        vals = [l for i in its[0].args[3] if i.op == "one" for _, l in alts(val_of(i.args[1]))]
        own = {t.args[1] for l in vals for x in core.aff_parts(l)[1] for t in theory._subterms(x) if t.op == "attr"}
        if src.op == "app" and not keys and len(own) < 2:
            return False  # what an unseen step returns may be in the order of that very value
        return bool((want & own) - seen)

    def apps(self, a, b, path, pc):
        """uninterpreted applications: congruence on the arguments"""
        if a.args[0] != b.args[0]:
            return None
        fa, fb = a.args[1], b.args[1]
        if len(fa) != len(fb):
            return None
        ok = True
        save = len(self.out)
        for x, y in zip(fa, fb):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and x[0] == y[0]:
                ok &= self.vals(x[1], y[1], f"{path}<arg {x[0]}>", pc)
            elif isinstance(x, T) and isinstance(y, T):
                ok &= self.vals(x, y, f"{path}<arg>", pc)
            elif x != y:
                ok = False
        if ok:
            return True
        del self.out[save:]
        return None

    def rec_pair(self, a, b, path, pc):
        """recursive call of the code against recursive call of the reference: equal by induction when they are
        applied to the same element"""
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
            self._add(Diff("UNDECIDED", path, a, b, None, "recursive calls of different shape"))
            return False
        ok = True
        save = len(self.out)
        for x, y in zip(a.args[1], b.args[1]):
            ok &= self.vals(x, y, path + "<recursion>", pc)
        if not ok:
            del self.out[save:]
            self._add(Diff("UNDECIDED", path, a, b, None, "recursive calls with other arguments"))
        return ok

    def frozen_objs(self, a, b, path, pc):
        if a.args[0] != b.args[0]:
            return self._diff(pc, path, a, b)
        if a.args[1] == "..." or b.args[1] == "...":
            self._add(Diff("UNDECIDED", path, a, b, None, "deep object"))
            return False
        da, db = dict(a.args[1]), dict(b.args[1])
        ok = True
        for k in sorted(set(da) | set(db)):
            if not self._want(a.args[0], k):
                continue
            ok &= self.vals(da.get(k, mk("unbound")), db.get(k, mk("unbound")), f"{path}.{k}", pc)
        return ok

    def _want(self, cls, k):
        if self.attrs is None:
            return True
        n = cls.split(".")[-1]
        f = self.attrs.get(n, self.attrs.get("*"))
        return f is None or (f(k) if callable(f) else k in f)

    def _h(self, t, st):
        return st.heap.get(t) if t.op == "ref" else None

    def _d(self, t, h):
        if h is None:
            return t
        return mk("new", h.cls.qual if h.cls else h.kind)

    def objs(self, a, ha, b, hb, path, pc):
        la, lb = ha.kind in ("list", "tuple", "set", "dict"), hb.kind in ("list", "tuple", "set", "dict")
        if la and lb:
            if {ha.kind, hb.kind} <= {"list", "tuple"} or ha.kind == hb.kind:
                return self.seqs((ha.items, ha.order, ha.kind), (hb.items, hb.order, hb.kind), path, pc)
            return self._diff(pc, path, self._d(a, ha), self._d(b, hb))
        if ha.kind != hb.kind:
            return self._diff(pc, path, self._d(a, ha), self._d(b, hb))
        if ha.kind == "inst":
            if ha.cls is not hb.cls:
                return self._diff(pc, path, self._d(a, ha), self._d(b, hb))
            if (ha.proto is None) != (hb.proto is None):
                self._add(Diff("UNDECIDED", path, self._d(a, ha), self._d(b, hb), None, "copy against construction"))
                return False
            ok = True
            self.compared += 1
            self.sites.append(ha.site)
            if ha.proto is not None:
                ok &= self.vals(ha.proto, hb.proto, path + "<copy of>", pc)
            for k in list(ha.attrs) + [x for x in hb.attrs if x not in ha.attrs]:
                if not self._want(ha.cls.qual, k):
                    continue
                va, vb = ha.attrs.get(k), hb.attrs.get(k)
                if va is None:
                    va = mk("attr", ha.proto, k) if ha.proto is not None else mk("unbound")
                if vb is None:
                    vb = mk("attr", hb.proto, k) if hb.proto is not None else mk("unbound")
                ok &= self.vals(va, vb, f"{path}.{k}", pc)
            self.sites.pop()
            return ok
        if ha.kind == "xml":
            self.compared += 1
            ok = self.vals(ha.attrs["tag"], hb.attrs["tag"], path + "<tag>", pc)
            tag = ha.attrs["tag"]
            p2 = f"{path}/{cval(tag)}" if isinstance(tag, T) and is_const(tag) else path
            ok &= self.vals(ha.attrs["text"], hb.attrs["text"], p2 + "/text()", pc)
            ok &= self.maps(ha.extra or (), hb.extra or (), p2 + "/@", pc)
            ok &= self.seqs((ha.items, None, "xml"), (hb.items, None, "xml"), p2, pc)
            return ok
        self._add(Diff("UNDECIDED", path, self._d(a, ha), self._d(b, hb), None, f"object kind {ha.kind}"))
        return False

    # -- mappings ------------------------------------------------------
    def maps(self, ia, ib, path, pc):
        def table(items):
            d: dict = {}
            for it in items:
                if it.op != "kv" or not is_const(it.args[1]):
                    return None
                d.setdefault(cval(it.args[1]), []).append((it.args[0].args[0], it.args[2]))
            return d

        da, db = table(ia), table(ib)
        if da is None or db is None:
            return self.seqs((ia, None, "dict"), (ib, None, "dict"), path, pc)
        ok = True
        for k in list(da) + [x for x in db if x not in da]:
            pa, va = _last(da.get(k, []))
            pb, vb = _last(db.get(k, []))
            ok &= self.bools(pa, pb, f"{path}[{k!r}]<present>", pc)
            both = band(pc, pa, pb)
            if both != FALSE and va is not None and vb is not None:
                ok &= self.vals(va, vb, f"{path}[{k!r}]", both)
        return ok

    # -- sequences -----------------------------------------------------
    def seqs(self, A, B, path, pc):
        ia, oa, ka = A
        ib, ob, kb = B
        if ka == "dict" and kb == "dict":
            if all(x.op == "kv" and is_const(x.args[1]) for x in tuple(ia) + tuple(ib)):
                return self.maps(ia, ib, path, pc)
        unordered = ka == "set" and kb == "set" or ka == "dict" and kb == "dict"
        if not unordered and bool(oa) != bool(ob):
            if oa:
                ia, oa = self.sorted_before(ia, oa, self.sta)
            else:
                ib, ob = self.sorted_before(ib, ob, self.stb)
        same = unordered or _ord(oa) == _ord(ob) or self.same_order(oa, ob, path, pc)
        if same is None:
            self._add(Diff("UNDECIDED", path + "<order>", None, None, None, "order"))
            return False
        parts = any(isinstance(x, tuple) and x[0] == "part" for x in tuple(oa or ()) + tuple(ob or ()))
        if not same and parts and (oa and ob or any(_has_sorted(i) for i in (ia if not oa else ib))):
            self._add(Diff("UNDECIDED", path + "<order>", None, None, None, "order of a part"))
            return False
        if not same:
            if any(getattr(x, "op", None) == "mixed" for o in (oa or ()) + (ob or ()) for x in (o if isinstance(o, tuple) else ())):
                self._add(Diff("UNDECIDED", path, None, None, None, "mixed order"))
                return False
            if feasible(pc, self.prog) and _orders_understood(oa, self.und) and _orders_understood(ob, self.und):
                n = max(len(ia), len(ib))
                if n == 0:
                    return True
                self._add(Diff("VIOLATED", path + "<order>", mk("order", str(_ord(oa))), mk("order", str(_ord(ob))), {}))
            else:
                self._add(Diff("UNDECIDED", path + "<order>", None, None, None, "order"))
            return False
        if unordered or oa and same and not parts:
            la, lb = self.expand(ia, pc), self.expand(ib, pc)
            return self.unordered(la, lb, path, pc)
        return self.align(self.expand(ia, pc), self.expand(ib, pc), path, pc, [200])

    def sorted_before(self, items, order, st):
        """a list made from another one element by element and then sorted, as made from the other one sorted: sorting is stable,
        so this is so when the keys are functions of the elements it is made from"""
        if len(items) != 1 or items[0].op != "each" or not all(isinstance(o, tuple) and len(o) == 2 and o[0] != "part" for o in order):
            return items, order
        e, src, body = items[0].args[1:4]
        if len(body) != 1 or body[0].op != "one" or src.op in ("range", "enumerate", "zip"):
            return items, order
        made = val_of(body[0].args[1])
        h = st.heap.get(made) if isinstance(made, T) and made.op == "ref" else None
        if h is None or h.kind != "inst":
            return items, order
        out = src
        for q, rev in order:
            m = {}
            if not _attrs_of_key(q, h, m):
                return items, order
            q2 = Subst(m).term(q)
            if any(x.op in ("each", "exists") for x in _subterms(q2)):
                return items, order
            q2 = Subst({e: mk("key", "e")}).term(q2)
            if out.op == "range" and len(out.args) < 3 and q2 == mk("key", "e") and rev == bterm(FALSE):
                continue  # already in order
            out = mk("sorted", out, q2, rev, ty=src.ty)
        return (mk("each", items[0].args[0], e, out, body),), None

    def same_order(self, oa, ob, path, pc):
        """sorted by the same keys, whichever way they are written"""
        oa, ob = oa or (), ob or ()
        if len(oa) != len(ob):
            return False
        for x, y in zip(oa, ob):
            if isinstance(x, tuple) and isinstance(y, tuple) and "part" in (x[0], y[0]):
                same = self.same_order(x[1], y[1], path, pc) if x[0] == y[0] else None
                if not same:
                    return same
                continue
            if not isinstance(x, tuple) or not isinstance(y, tuple):
                if x != y:
                    return False
                continue
            if len(x) != 2 or len(y) != 2 or x[1] is not y[1]:
                return False
            save = len(self.out)
            ok = self.vals(x[0], y[0], path + "<key>", pc)
            new = self.out[save:]
            del self.out[save:]
            if not ok:
                return False if any(d.kind == "VIOLATED" for d in new) or not new else None
        return True

    def expand(self, items, pc):
        out = []
        for it in items:
            g = it.args[0].args[0] if it.args and isinstance(it.args[0], T) and it.args[0].op == "b" else TRUE
            p = band(g, pc)
            if p == FALSE:
                continue
            if it.op == "one":
                for g2, l in alts(val_of(it.args[1])):
                    if band(p, g2) != FALSE:
                        out.append((restrict(band(g, g2), pc), "one", l, None))
            elif it.op == "each":
                inner = []
                for x in it.args[3]:
                    inner.append(guard_item(x, g) if x.op in ("one", "each", "splat", "kv") else x)
                # identity loops are splats
                if len(inner) == 1 and inner[0].op == "one" and inner[0].args[1] is it.args[1] and not any(
                        occurs(it.args[1], a) for a in support(inner[0].args[0].args[0])):
                    out.append((restrict(inner[0].args[0].args[0], pc), "splat", it.args[2], None))
                else:
                    out.append((restrict(_invariant(inner, it.args[1]), pc), "each", it.args[2], (it.args[1], tuple(inner))))
            elif it.op == "splat":
                t = it.args[1]
                si = _items_of(t) if t.op == "lst" else None
                if t.op == "ref":
                    h = self.sta.heap.get(t) or self.stb.heap.get(t)
                    if h is not None and h.kind in ("list", "tuple", "xml") and not h.order:
                        si = (h.items, None, h.kind)
                if si is not None and si[1] is None:
                    for x in self.expand(si[0], p):
                        out.append((band(g, x[0]),) + x[1:])
                else:
                    out.append((restrict(g, pc), "splat", t, None))
            elif it.op == "kv":
                out.append((restrict(g, pc), "kv", it.args[1], it.args[2]))
            else:
                out.append((TRUE, "opaque", it, None))
        return out

    def align(self, la, lb, path, pc, fuel, idx=0):
        la, lb = list(la), list(lb)
        while True:
            while la and (band(pc, la[0][0]) == FALSE or self._void(la[0], pc)):
                la.pop(0)
            while lb and (band(pc, lb[0][0]) == FALSE or self._void(lb[0], pc)):
                lb.pop(0)
            if not la and not lb:
                return True
            if not la or not lb:
                x = (la or lb)[0]
                d = band(pc, self._present(x))
                if d == FALSE or not feasible(d, self.prog):
                    (la or lb).pop(0)
                    continue
                if x[1] == "opaque" or not self._und_item(x):
                    self._add(Diff("UNDECIDED", f"{path}[{idx}]", None, None, None, "opaque sequence item"))
                    return False
                return self._diff(d, f"{path}[{idx}]", self._di(la[0]) if la else mk("absent"), self._di(lb[0]) if lb else mk("absent"))
            na, nb = _unpacked(la[0], lb), _unpacked(lb[0], la)
            if na or nb:
                # one side unpacked a value into that many parts, the other one passed them on
                del la[:nb or 1]
                del lb[:na or 1]
                idx += 1
                continue
            a, b = la[0], lb[0]
            ga, gb = band(pc, a[0]), band(pc, b[0])
            if ga == gb or not feasible(ite(ga, bnot(gb), gb), self.prog):
                if not self.item(a, b, f"{path}[{idx}]", band(ga, gb)):
                    return False
                la.pop(0)
                lb.pop(0)
                idx += 1
                continue
            # the same value appears under several guards on one side: try to match and leave a residue
            common = band(ga, gb)
            if common != FALSE and a[1] == b[1] and a[2] is b[2] and a[3] == b[3] and _rest_disjoint(la, lb, ga, gb, pc):
                ra, rb = band(ga, bnot(gb)), band(gb, bnot(ga))
                la[0] = (ra,) + a[1:]
                lb[0] = (rb,) + b[1:]
                continue
            # case split on the head of a
            fuel[0] -= 1
            if fuel[0] <= 0:
                self._add(Diff("UNDECIDED", f"{path}[{idx}]", self._di(a), self._di(b), None, "sequence alignment budget"))
                return False
            sp = a[0] if band(pc, bnot(a[0])) != FALSE else b[0]
            ok = True
            for p in (band(pc, sp), band(pc, bnot(sp))):
                if p == FALSE or not feasible(p, self.prog):
                    continue
                ok &= self.align(la, lb, path, p, fuel, idx)
                if not ok:
                    break
            return ok

    def _void(self, x, pc):
        d = band(pc, self._present(x))
        return d == FALSE

    def _present(self, x):
        g, k, t, r = x
        if k in ("one", "kv"):
            return g
        if k == "splat":
            return band(g, nonempty(t)) if t.op != "ref" else g
        if k == "each":
            from .core import item_nonempty
            return band(g, exists(r[0], t, bor(*[item_nonempty(i) if i.op in ("one", "each", "splat", "kv") else TRUE for i in r[1]])))
        return g

    def _und_item(self, x):
        g, k, t, r = x
        if k in ("one", "kv"):
            return t.op == "ref" or self.und(t)
        if k == "splat":
            return self.und(t)
        if k == "each":
            return self.und(t)
        return False

    def _di(self, x):
        g, k, t, r = x
        if k == "each":
            return mk("each", r[0], t, r[1])
        if t.op == "ref":
            h = self.sta.heap.get(t) or self.stb.heap.get(t)
            t = self._d(t, h) if h is None or h.kind != "xml" else mk("xml", h.attrs["tag"] if isinstance(h.attrs["tag"], T) else gterm(h.attrs["tag"]))
        return mk(k, t)

    def item(self, a, b, path, pc):
        if a[1] == "one" and b[1] == "one":
            return self.vals(a[2], b[2], path, pc)
        if a[1] == "kv" and b[1] == "kv":
            return self.vals(a[2], b[2], path + "<key>", pc) and self.vals(a[3], b[3], path + "<value>", pc)
        if a[1] == "splat" and b[1] == "splat":
            return self._src(a[2], b[2], path, pc)
        if a[1] == "each" and b[1] == "each":
            if a[2] is not b[2]:
                return self._src(a[2], b[2], path, pc)
            ea, ina = a[3]
            eb, inb = b[3]
            if ea is not eb:
                inb = tuple(Subst({eb: ea}).term(i) for i in inb)
            with self.knowing(_member_facts(band(pc, self.facts), ea, a[2])):
                return self.align(self.expand(ina, pc), self.expand(inb, pc), path + f"<per {show(a[2])[-40:]}>", pc, [100])
        if {a[1], b[1]} == {"splat", "each"}:
            s, e = (a, b) if a[1] == "splat" else (b, a)
            if s[2] is e[2]:
                el = e[3][0]
                x = [(TRUE, "one", el, None)]
                y = self.expand(e[3][1], pc)
                with self.knowing(_member_facts(band(pc, self.facts), el, s[2])):
                    return self.align(x, y, path, pc, [100]) if a is s else self.align(y, x, path, pc, [100])
        if a[1] == "opaque" or b[1] == "opaque" or not (self._und_item(a) and self._und_item(b)):
            self._add(Diff("UNDECIDED", path, self._di(a), self._di(b), None, "opaque sequence item"))
            return False
        if {a[1], b[1]} <= {"one", "splat", "each"} and "one" in (a[1], b[1]):
            # a single element against a whole collection
            return self._diff(band(pc, self._present(a), self._present(b)), path, self._di(a), self._di(b))
        self._add(Diff("UNDECIDED", path, self._di(a), self._di(b), None, "sequence shape"))
        return False

    def _src(self, a, b, path, pc):
        if a is b:
            return True
        if not feasible(pc, self.prog):
            return True
        if a.op == "ref" and b.op == "ref":
            return self.leaf(a, b, path, pc)
        e = eq_leaf(a, b)
        d = band(pc, bnot(e), bor(nonempty(a) if a.op != "ref" else TRUE, nonempty(b) if b.op != "ref" else TRUE))
        if d == FALSE:
            return True
        if a.op == b.op == "product" and a.args[0] == b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]] == ["repeat"] \
                and all(is_const(x) and isinstance(cval(x), str) and len(cval(x)) > 1 for x in a.args[0]) and a.args[0]:
            # tuples of another number of elements
            return self.vals(a.args[1][0][1], b.args[1][0][1], path + ".repeat", pc)
        if a.op == b.op == "split" and a.args[0] == b.args[0] in ("split", "rsplit") and a.args[2] == b.args[2] and a.args[2]:
            # cut at the same separator: the pieces put together again are the texts
            return self.vals(a.args[1], b.args[1], path + ".text", pc)
        xa, xb = _part(a), _part(b)
        if xa and xb and xa[0] is xb[0] and xa[1] != xb[1] and self.und(xa[0]):
            # the whole of a collection against a fixed part of it
            return self._diff(band(pc, nonempty(xa[0])), path, mk("splat", a), mk("splat", b))
        if self.und(a) and self.und(b) and _strict(a) and _strict(b):
            return self._diff(d, path, mk("splat", a), mk("splat", b))
        self._add(Diff("UNDECIDED", path, a, b, None, "different collections"))
        return False

    def unordered(self, la, lb, path, pc):
        lb = list(lb)
        rest = []
        for a in la:
            for i, b in enumerate(lb):
                save, seen = len(self.out), set(self.seen)
                if a[1] == b[1] and band(pc, ite(a[0], bnot(b[0]), b[0])) == FALSE and self.item(a, b, path, band(pc, a[0])):
                    del self.out[save:]
                    lb.pop(i)
                    break
                del self.out[save:]
                self.seen = seen
            else:
                rest.append(a)
        return self.align(rest, lb, path, pc, [60])


_mf: dict = {}


def _member_facts(pc, e, src):
    """what is known of every element of the sequence"""
    k = (pc, e, src)
    r = _mf.get(k)
    if r is None:
        r = []
        for a in sorted(core.support(pc), key=lambda x: x.uid):
            if a.op == "exists" and a.args[1] is src:
                b = a.args[2].args[0]
                r.append(bor(atom_bdd(a), bnot(b if a.args[0] is e else Subst({a.args[0]: e}).bdd(b))))
        _mf[k] = r
    return r


def _cube(w):
    c = TRUE
    for a, v in w.items():
        c = band(c, atom_bdd(a) if v else bnot(atom_bdd(a)))
    return c


_qm: dict = {}


def _quantify(b, e):
    """the guard with every atom about e forgotten"""
    if b <= 1:
        return b
    r = _qm.get((b, e))
    if r is None:
        v, lo, hi = core._bnodes[b]
        l, h = _quantify(lo, e), _quantify(hi, e)
        r = bor(l, h) if occurs(e, core._atoms[v]) else ite(atom_bdd(core._atoms[v]), h, l)
        _qm[(b, e)] = r
    return r


def _invariant(inner, e):
    """what must hold, whatever the element is, for the loop to contribute anything"""
    out = FALSE
    for i in inner:
        if i.op in ("one", "each", "splat", "kv") and isinstance(i.args[0], T) and i.args[0].op == "b":
            g = i.args[0].args[0]
            if i.op == "each":
                g = band(g, _invariant(i.args[3], i.args[1]))
            out = bor(out, _quantify(g, e))
        else:
            return TRUE
    return out


def _selfish(x):
    return isinstance(x, T) and x.op in ("self_", "cls")


def _ord(o):
    return tuple(o) if o else None


def _unpacked(x, ys):
    """how many of the values are all the parts of a collection, one by one"""
    if x[1] != "splat":
        return 0
    n = 0
    for y in ys:
        t = y[2]
        if not (y[1] == "one" and y[0] == x[0] and isinstance(t, T) and t.op == "item" and t.args[0] is x[2] and t.args[1] in (n, C(n))):
            break
        n += 1
    return n


def _subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            todo += list(x.args)
            if x.op == "b":
                todo += list(support(x.args[0]))
    return seen


def _attrs_of_key(q, h, m):
    """what the attributes of the compared element are, in m; whether nothing else of it is used"""
    for x in _subterms(q):
        if x.op == "attr" and isinstance(x.args[0], T) and x.args[0].op == "key":
            v = h.attrs.get(x.args[1])
            if v is None:
                return False
            v = gterm(v)
            if not isinstance(v, T) or v.op == "ref":
                return False
            m[x] = v
    left = Subst({x: C(0) for x in m}).term(q)
    return not any(x.op == "key" for x in _subterms(left))


def _orders_understood(o, und):
    for x in o or ():
        if x == "rev":
            continue
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, T) and not und(y) or isinstance(y, tuple) and not _orders_understood(y, und):
                return False
    return True


def _has_sorted(it):
    return any(x.op in ("sorted", "reversed") for x in _subterms(it))


def _strict(t):
    return t.op in STRICT_SEQ or t.op in ("childtags",) or t.op == "xmliter" and t.args[0] in ("iter", "iterdescendants")


def _part(t):
    """(collection, rearrangements of it by fixed bounds) of a slice or reversal"""
    how = ()
    while True:
        if t.op == "slice" and all(is_const(x) for x in t.args[1:]):
            how = (tuple(cval(x) for x in t.args[1:]),) + how
            t = t.args[0]
        elif t.op == "lst" and len(t.args[1]) == 1 and t.args[1][0].op == "splat" and t.args[1][0].args[0].args[0] == TRUE:
            t = t.args[1][0].args[1]
        else:
            return t, how


def _items_of(t):
    if t.op == "lst":
        return (t.args[1], None, t.args[0])
    if t.op == "sorted" or t.op == "reversed":
        return None
    if t.op in ("findall", "children", "attr", "elem", "sym", "app"):
        return ((mk("splat", bterm(TRUE), t),), None, "list")
    return None


def _unbundle(v):
    if isinstance(v, T) and v.op == "g":
        return val_of(v)
    return v


def _last(l):
    """(present guard, value) of successive writes to one key"""
    pres, val = FALSE, None
    for g, v in l:
        v = val_of(v)
        val = v if val is None else vite(g, v, val)
        pres = bor(pres, g)
    return pres, val


def _rest_disjoint(la, lb, ga, gb, pc):
    # leaving a residue in place keeps the order only if nothing else can precede it
    return True


# ----------------------------------------------------------------------
# raised / warned summaries
# ----------------------------------------------------------------------


def raise_guards(raised, prog, classify=None):
    """{exception class: guard} of uncaught exceptions"""
    out: dict = {}
    for o in raised:
        for g, l in alts(o.val):
            n = exc_name(l)
            if classify:
                n = classify(n)
            out[n] = bor(out.get(n, FALSE), band(o.st.pc, g))
    return out


_absorbed: dict = {}


def absorb(w, r):
    """w rewritten for states in which r is false: inside a loop body the absence of r holds for every iteration"""
    if w <= 1 or r == FALSE:
        return w
    if r == TRUE:
        return FALSE
    k = (w, r)
    v = _absorbed.get(k)
    if v is not None:
        return v
    nr = bnot(r)
    w = band(w, nr)
    byloop: dict = {}
    for a in support(r):
        if a.op == "exists":
            byloop.setdefault((a.args[0], a.args[1]), []).append(a)
    m = {}
    for a in support(w):
        if a.op != "exists":
            continue
        rb = FALSE
        for a2 in byloop.get((a.args[0], a.args[1]), ()):
            if a2 is not a and band(atom_bdd(a2), nonempty(a.args[1]), nr) == FALSE:
                rb = bor(rb, a2.args[2].args[0])
        body = a.args[2].args[0]
        nb = absorb(body, rb)
        if nb != body:
            m[a] = exists(a.args[0], a.args[1], nb)
    out = band(_replace(w, m, {}), nr) if m else w
    _absorbed[k] = out
    return out


def loop_raises(r, e, src, p=TRUE):
    """the raising condition of one iteration of the loop over src that r contains"""
    nr = band(bnot(r), p)
    rb = FALSE
    for a2 in support(r):
        if a2.op == "exists" and a2.args[0] is e and a2.args[1] is src and band(atom_bdd(a2), nonempty(src), nr) == FALSE:
            rb = bor(rb, a2.args[2].args[0])
    return rb


def effect_guards_ok(log, kind, key, r):
    """{key: guard} of the effects of a kind, for runs in which r (anything raised) is false"""
    r = canon(r)
    by: dict = {}
    for e in log:
        if e.kind == kind:
            k = key(e)
            if k is not None:
                by.setdefault(k, []).append(e)

    def agg(effs, depth, r):
        nr = bnot(r)
        w = FALSE
        loops: dict = {}
        for x in effs:
            if len(x.pcs) != len(x.ctx):
                return None
            if len(x.ctx) == depth:
                w = bor(w, band(x.rel, nr))
            else:
                loops.setdefault(x.ctx[depth], []).append(x)
        for (e, src), xs in loops.items():
            if not isinstance(src, T):
                return None
            groups: dict = {}
            for x in xs:
                groups.setdefault(band(x.pcs[depth], nr), []).append(x)
            for p, ys in groups.items():
                rb = loop_raises(r, e, src, p) if r > 1 else FALSE
                b = agg(ys, depth + 1, rb)
                if b is None:
                    return None
                w = bor(w, band(p, exists(e, src, b)))
        return w

    out = {}
    for k, effs in by.items():
        g = agg(effs, 0, r)
        if g is None:
            g = absorb(effect_guards(effs, kind, key).get(k, FALSE), r)
        out[k] = g
    return out


_canon: dict = {}


def canon(b, depth=0):
    """join existential atoms over one collection that only occur as a disjunction"""
    if b <= 1:
        return b
    r = _canon.get(b)
    if r is not None:
        return r
    m = {}
    ex = []
    for a in sorted(support(b), key=lambda t: t.uid):
        if a.op == "exists":
            body = a.args[2].args[0]
            nb = canon(body, depth + 1)
            if nb != body:
                m[a] = exists(a.args[0], a.args[1], nb)
    f = _replace(b, m, {}) if m else b
    for _ in range(60):
        ex = [a for a in sorted(support(f), key=lambda t: t.uid) if a.op == "exists"]
        groups: dict = {}
        for a in ex:
            groups.setdefault((a.args[0], a.args[1]), []).append(a)
        done = True
        for (e, src), xs in groups.items():
            if len(xs) < 2:
                continue
            by: dict = {}
            for x in xs:
                by.setdefault(restrict(f, atom_bdd(x)), []).append(x)
            for f1, ys in by.items():
                if len(ys) < 2:
                    continue
                f0 = f
                for y in ys:
                    f0 = restrict(f0, bnot(atom_bdd(y)))
                body = bor(*[y.args[2].args[0] for y in ys])
                f = ite(exists(e, src, canon(body, depth + 1)), f1, f0)
                done = False
                break
            if not done:
                break
        if done:
            break
    _canon[b] = f
    return f


def _replace(b, m, memo):
    from .core import _atoms, _bnodes
    if b <= 1:
        return b
    r = memo.get(b)
    if r is None:
        v, lo, hi = _bnodes[b]
        a = _atoms[v]
        r = ite(m.get(a) if a in m else atom_bdd(a), _replace(hi, m, memo), _replace(lo, m, memo))
        memo[b] = r
    return r


def exc_name(l):
    if l.op == "exc":
        return l.args[0]
    return l.op + ":" + show(l)[:60]


def wrap_ctx(g, ctx):
    for e, src in reversed(ctx):
        g = exists(e, src, g)
    return g


def effect_guards(log, kind, key):
    out: dict = {}
    for e in log:
        if e.kind == kind:
            k = key(e)
            if k is None:
                continue
            out[k] = bor(out.get(k, FALSE), wrap_ctx(e.guard, e.ctx))
    return out
