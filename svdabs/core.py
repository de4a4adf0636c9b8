"""Value domain of the analysis: hash-consed terms, guards (ROBDDs over canonical
atoms) and gated values.

Nothing here runs the analysed program: terms denote *where a value flows from*
(an attribute of an input, the text of a child element, a constant ...), guards
denote the branch conditions under which it does so, and joins of the control
flow merge values instead of enumerating paths.
"""
from __future__ import annotations

import sys

sys.setrecursionlimit(20000)

# --------------------------------------------------------------------------
# terms
# --------------------------------------------------------------------------


class T:
    __slots__ = ("op", "args", "ty", "uid")

    def __init__(self, op, args, ty, uid):
        self.op = op
        self.args = args
        self.ty = ty
        self.uid = uid

    def __repr__(self):
        return show(self)


_table: dict = {}
_count = 0


def mk(op, *args, ty=None) -> T:
    global _count
    key = (op, args)
    t = _table.get(key)
    if t is None:
        _count += 1
        t = T(op, args, ty, _count)
        _table[key] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def sym(name, t=None) -> T:
    """an arbitrary value of a type; values of different types are different symbols"""
    return mk("sym", name, str(sorted(map(str, t))) if t else "", ty=t)


def C(v) -> T:
    return mk("c", type(v).__name__, v)


NONE = C(None)
TRUE_T = C(True)
FALSE_T = C(False)


def is_const(t) -> bool:
    return isinstance(t, T) and t.op == "c"


def cval(t):
    return t.args[1]


# --------------------------------------------------------------------------
# types: frozenset of atoms; an atom is a tuple ('int',), ('cls', q), ('list', Ty) ...
# --------------------------------------------------------------------------

ANY = None


def ty(*atoms):
    return frozenset(atoms)


T_INT = ty(("int",))
T_STR = ty(("str",))
T_BOOL = ty(("bool",))
T_BYTES = ty(("bytes",))
T_XML = ty(("xml",))
T_TREE = ty(("tree",))
T_NONE = ty(("none",))


def opt(t):
    return None if t is None else t | T_NONE


def strip_none(t):
    return None if t is None else frozenset(a for a in t if a != ("none",))


def T_LIST(el):
    return ty(("list", el))


# --------------------------------------------------------------------------
# BDDs
# --------------------------------------------------------------------------

FALSE, TRUE = 0, 1
_bnodes: list = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
_buniq: dict = {}
_bite: dict = {}
_atoms: list = []
_atom_ix: dict = {}


def atom_bdd(t: T) -> int:
    ix = _atom_ix.get(t)
    if ix is None:
        ix = len(_atoms)
        _atoms.append(t)
        _atom_ix[t] = ix
    return _bmk(ix, FALSE, TRUE)


def _bmk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _buniq.get(k)
    if n is None:
        n = len(_bnodes)
        _bnodes.append(k)
        _buniq[k] = n
    return n


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _bite.get(k)
    if r is not None:
        return r
    vf, vg, vh = _bnodes[f][0], _bnodes[g][0], _bnodes[h][0]
    v = min(vf, vg, vh)

    def co(n, nv):
        return (_bnodes[n][1], _bnodes[n][2]) if nv == v else (n, n)

    f0, f1 = co(f, vf)
    g0, g1 = co(g, vg)
    h0, h1 = co(h, vh)
    r = _bmk(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _bite[k] = r
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r == FALSE:
            return FALSE
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
        if r == TRUE:
            return TRUE
    return r


def bnot(x):
    return ite(x, FALSE, TRUE)


def bimplies(a, b):
    return ite(a, b, TRUE)


_brestr: dict = {}


def restrict(f, c):
    """Coudert-Madre restrict: some g with g & c == f & c, hopefully smaller."""
    if c == TRUE or f <= 1:
        return f
    if c == FALSE:
        return FALSE
    k = (f, c)
    r = _brestr.get(k)
    if r is not None:
        return r
    vf, vc = _bnodes[f][0], _bnodes[c][0]
    if vc < vf:
        r = restrict(f, bor(_bnodes[c][1], _bnodes[c][2]))
    else:
        f0, f1 = _bnodes[f][1], _bnodes[f][2]
        c0, c1 = (_bnodes[c][1], _bnodes[c][2]) if vc == vf else (c, c)
        if c0 == FALSE:
            r = restrict(f1, c1)
        elif c1 == FALSE:
            r = restrict(f0, c0)
        else:
            r = _bmk(vf, restrict(f0, c0), restrict(f1, c1))
    _brestr[k] = r
    return r


def support(f) -> set:
    seen, out, stack = set(), set(), [f]
    while stack:
        n = stack.pop()
        if n <= 1 or n in seen:
            continue
        seen.add(n)
        v, lo, hi = _bnodes[n]
        out.add(_atoms[v])
        stack += [lo, hi]
    return out


def cubes(f, limit=4000):
    """Yield dicts atom->bool, one per path to TRUE."""
    count = 0
    stack = [(f, ())]
    while stack:
        n, lits = stack.pop()
        if n == FALSE:
            continue
        if n == TRUE:
            count += 1
            if count > limit:
                raise TooBig()
            yield {_atoms[v]: b for v, b in lits}
            continue
        v, lo, hi = _bnodes[n]
        stack.append((lo, lits + ((v, False),)))
        stack.append((hi, lits + ((v, True),)))


class TooBig(Exception):
    pass


def bterm(b) -> T:
    return mk("b", b)


# --------------------------------------------------------------------------
# gated values
# --------------------------------------------------------------------------


class G:
    """Gated value: ((guard, leaf), ...), guards pairwise disjoint."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "{" + "; ".join(f"{show(l)} if {showb(g)}" for g, l in self.alts) + "}"

    def __eq__(self, other):
        return isinstance(other, G) and set(self.alts) == set(other.alts)

    def __hash__(self):
        return hash(frozenset(self.alts))


def alts(v):
    return v.alts if isinstance(v, G) else ((TRUE, v),)


def gate(pairs):
    d: dict = {}
    for g, l in pairs:
        if g == FALSE:
            continue
        d[l] = bor(d[l], g) if l in d else g
    if len(d) == 1:
        return next(iter(d))
    if not d:
        return mk("bottom")
    return G(tuple((g, l) for l, g in d.items()))


def vite(b, a, c):
    if b == TRUE or a is c:
        return a
    if b == FALSE:
        return c
    nb = bnot(b)
    return gate([(band(b, g), l) for g, l in alts(a)] + [(band(nb, g), l) for g, l in alts(c)])


def vmap(fn, v, pc=TRUE):
    """Apply fn(leaf, guard)->value over the alternatives of v."""
    if not isinstance(v, G):
        return fn(v)
    out = []
    for g, l in v.alts:
        if band(g, pc) == FALSE:
            continue
        r = fn(l)
        for g2, l2 in alts(r):
            out.append((band(g, g2), l2))
    return gate(out)


def vrestrict(v, pc):
    if not isinstance(v, G):
        return v
    out = []
    for g, l in v.alts:
        if band(g, pc) == FALSE:
            continue
        out.append((restrict(g, pc), l))
    if len(out) == 1:
        return out[0][1]
    return gate(out)


def bval(b):
    if b == TRUE:
        return TRUE_T
    if b == FALSE:
        return FALSE_T
    return G(((b, TRUE_T), (bnot(b), FALSE_T)))


def gterm(v) -> T:
    """A gated value as one term."""
    if isinstance(v, T):
        return v
    tys = [l.ty if not is_const(l) else const_ty(l) for _, l in v.alts]
    t = None
    if all(x is not None for x in tys):
        t = frozenset().union(*tys)
    return mk("g", *[x for g, l in sorted(v.alts, key=lambda p: p[1].uid) for x in (bterm(g), l)], ty=t)


def const_ty(t):
    v = cval(t)
    if v is None:
        return T_NONE
    n = type(v).__name__
    return ty((n,)) if n in ("int", "str", "bool", "bytes") else None


def tyof(t):
    if t.op == "c":
        return const_ty(t)
    return t.ty


# --------------------------------------------------------------------------
# affine integer terms:  ('aff', k, ((coef, term), ...))
# --------------------------------------------------------------------------


def aff_parts(t: T):
    if t.op == "c" and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        return cval(t), {}
    if t.op == "aff":
        return t.args[0], {x: c for c, x in t.args[1]}
    return 0, {t: 1}


def aff_build(k, d):
    d = {x: c for x, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (x, c), = d.items()
        if c == 1:
            return x
    return mk("aff", k, tuple((c, x) for x, c in sorted(d.items(), key=lambda p: p[0].uid)), ty=T_INT)


def aff_add(a, b, sb=1):
    ka, da = aff_parts(a)
    kb, db = aff_parts(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + sb * c
    return aff_build(ka + sb * kb, d)


def aff_scale(a, n):
    k, d = aff_parts(a)
    return aff_build(k * n, {x: c * n for x, c in d.items()})


def _sign_normal(k, d):
    lead = min(d, key=lambda x: x.uid)
    return d[lead] > 0


def le0(t: T) -> int:
    """guard  t <= 0  (integers)."""
    k, d = aff_parts(t)
    if not d:
        return TRUE if k <= 0 else FALSE
    ms = [(x, c) for x, c in d.items() if x.op == "maxn"]
    if ms and len(ms) <= 2 and len(ms[0][0].args[1]) <= 3:
        # a bound on an extreme is a bound on all / on any of its arguments
        (x, c), = ms[:1]
        rest = aff_build(k, {y: w for y, w in d.items() if y is not x})
        each = [le0(aff_add(rest, y, c)) for y in x.args[1]]
        return band(*each) if (x.args[0] == "max") == (c > 0) else bor(*each)
    from math import gcd

    g = 0
    for c in d.values():
        g = gcd(g, abs(c))
    if g > 1:
        d = {x: c // g for x, c in d.items()}
        k = -((-k) // g)  # ceil(k/g): sum <= -k/g  =>  sum <= floor(-k/g)
    # len(x) special cases
    if len(d) == 1:
        (x, c), = d.items()
        if x.op == "len":
            if c == 1 and k == 0:  # len <= 0
                return bnot(nonempty(x.args[0]))
            if c == -1 and k == 1:  # len >= 1
                return nonempty(x.args[0])
            if c == -1 and k <= 0:  # len >= k'<=0
                return TRUE
            if c == 1 and k > 0:  # len <= -k < 0
                return FALSE
    if _sign_normal(k, d):
        return atom_bdd(mk("le0", aff_build(k, d)))
    # not(t <= 0) == t >= 1 == -t + 1 <= 0
    return bnot(atom_bdd(mk("le0", aff_build(-k + 1, {x: -c for x, c in d.items()}))))


def eq0(t: T) -> int:
    k, d = aff_parts(t)
    if not d:
        return TRUE if k == 0 else FALSE
    if len(d) == 1 and k == 0:
        (x, c), = d.items()
        if x.op == "len":
            return bnot(nonempty(x.args[0]))
    if not _sign_normal(k, d):
        k, d = -k, {x: -c for x, c in d.items()}
    return atom_bdd(mk("eq0", aff_build(k, d)))


def nonempty(t: T) -> int:
    if t.op in ("sorted", "reversed", "aslist"):
        return nonempty(t.args[0])
    if t.op == "c":
        return TRUE if cval(t) else FALSE
    if t.op == "lst":
        out = FALSE
        for it in t.args[1]:
            out = bor(out, item_nonempty(it))
        return out
    if t.op == "prefix":
        p = _prefix_items(t)
        if p is not None:
            return exists(p[0], p[1], bor(*[g for g, _ in p[2]]))
    return atom_bdd(mk("nonempty", t))


def item_nonempty(it):
    if not (it.args and isinstance(it.args[0], T) and it.args[0].op == "b"):
        return atom_bdd(mk("nonempty", it))
    g = it.args[0].args[0]
    if it.op == "one":
        return g
    if it.op == "each":
        return band(g, exists(it.args[1], it.args[2], bor(*[item_nonempty(x) for x in it.args[3]])))
    if it.op == "splat":
        return band(g, nonempty(it.args[1]))
    return band(g, atom_bdd(mk("nonempty", it)))


def _prefix_items(src):
    """items of a collection filled by earlier iterations of a loop, as (earlier element, loop source, [(guard, value)])"""
    if src.op != "prefix":
        return None
    e, s, items = src.args[:3]
    pe = mk("prev", e, ty=e.ty)
    sub = Subst({e: pe})
    out = []
    for it in items:
        if it.op not in ("one", "kv") or occurs_op("self", it) or occurs_op("loopin", it) or occurs_op("prefix", it):
            return None
        out.append((sub.bdd(it.args[0].args[0]), sub.term(it.args[1])))
    return pe, mk("before", e, s), out


def occurs_op(op, t, _memo={}):
    k = (op, t)
    r = _memo.get(k)
    if r is None:
        _memo[k] = False
        if not isinstance(t, T):
            r = any(occurs_op(op, x) for x in t) if isinstance(t, tuple) else False
        elif t.op == op:
            r = True
        elif t.op == "b":
            r = any(occurs_op(op, a) for a in support(t.args[0]))
        else:
            r = any(occurs_op(op, a) for a in t.args if isinstance(a, (T, tuple)))
        _memo[k] = r
    return r


def _leaves(v):
    if v.op == "g":
        return [(v.args[i].args[0], v.args[i + 1]) for i in range(0, len(v.args), 2)]
    return [(TRUE, v)]


def member(x, src):
    """guard of  x in src"""
    if src.op in ("sorted", "reversed", "aslist"):
        return member(x, src.args[0])
    p = _prefix_items(src)
    if p is not None:
        pe, before, items = p
        b = FALSE
        for g, v in items:
            for gv, lv in _leaves(v):
                for gx, lx in _leaves(x):
                    b = bor(b, band(g, gv, gx, eq_leaf(lx, lv)))
        return exists(pe, before, b)
    return atom_bdd(mk("in", x, src))


def lift(a: T) -> int:
    """guard of an atom whose arguments contain gated values"""
    def find(t):
        if isinstance(t, tuple):
            for x in t:
                r = find(x)
                if r is not None:
                    return r
            return None
        if not isinstance(t, T):
            return None
        if t.op == "g":
            return t
        if t.op in ("b", "exists", "lst", "each", "one", "kv", "obj"):
            return None
        for x in t.args:
            r = find(x)
            if r is not None:
                return r
        return None

    if a.op in ("exists", "in") or (g := find(a)) is None:
        return rebuild_atom1(a)
    out = FALSE
    for gd, l in _leaves(g):
        out = bor(out, band(gd, lift(Subst({g: l}).plain(a))))
    return out


def exists(e, src, b) -> int:
    if b == FALSE:
        return FALSE
    if b == TRUE:
        return nonempty(src)
    if src.op == "prefix":
        p = _prefix_items(src)
        if p is not None:
            pe, before, items = p
            out = FALSE
            for g, v in items:
                for gv, lv in _leaves(v):
                    out = bor(out, band(g, gv, Subst({e: lv}).bdd(b)))
            return exists(pe, before, out)
    # pull out the part of b that does not mention e
    sup = support(b)
    if not any(occurs(e, a) for a in sup):
        return band(b, nonempty(src))
    return band(nonempty(src), atom_bdd(mk("exists", e, src, bterm(b))))


_occ: dict = {}


def occurs(e: T, t) -> bool:
    if t is e:
        return True
    if not isinstance(t, T):
        return False
    k = (e, t)
    r = _occ.get(k)
    if r is not None:
        return r
    _occ[k] = False
    r = False
    if t.op == "b":
        r = any(occurs(e, a) for a in support(t.args[0]))
    else:
        for a in t.args:
            if isinstance(a, T):
                if occurs(e, a):
                    r = True
                    break
            elif isinstance(a, tuple):
                if any(occ_tuple(e, x) for x in a):
                    r = True
                    break
    _occ[k] = r
    return r


def occ_tuple(e, x):
    if isinstance(x, T):
        return occurs(e, x)
    if isinstance(x, tuple):
        return any(occ_tuple(e, y) for y in x)
    return False


def voccurs(e, v):
    for g, l in alts(v):
        if occurs(e, l) or any(occurs(e, a) for a in support(g)):
            return True
    return False


# --------------------------------------------------------------------------
# substitution
# --------------------------------------------------------------------------


def rebuild_atom(a: T) -> int:
    return lift(a)


def rebuild_atom1(a: T) -> int:
    """Canonical guard for a (rewritten) atom."""
    if a.op == "in" and len(a.args) == 2 and isinstance(a.args[1], T):
        return member(a.args[0], a.args[1])
    if a.op == "isa" and a.args[0].op == "obj" and a.args[0].args[0] == a.args[1]:
        return TRUE
    if a.op == "le0":
        return le0(a.args[0])
    if a.op == "eq0":
        return eq0(a.args[0])
    if a.op == "nonempty":
        return nonempty(a.args[0])
    if a.op == "exists":
        return exists(a.args[0], a.args[1], a.args[2].args[0])
    if a.op == "none":
        return is_none(a.args[0])
    if a.op == "eq":
        return eq_leaf(a.args[0], a.args[1])
    return atom_bdd(a)


def is_none(t: T) -> int:
    if t.op == "c":
        return TRUE if cval(t) is None else FALSE
    if t.op == "g":
        out = FALSE
        for i in range(0, len(t.args), 2):
            out = bor(out, band(t.args[i].args[0], is_none(t.args[i + 1])))
        return out
    if t.op in NEVER_NONE:
        return FALSE
    if t.op == "rematchs":
        return is_none(t.args[0])
    if t.ty is not None:
        if ("none",) not in t.ty:
            return FALSE
        if t.ty == T_NONE:
            return TRUE
    return atom_bdd(mk("none", t))


NEVER_NONE = {
    "aff", "cat", "hex", "str", "tuple", "lst", "obj", "enum", "ref", "len", "lower", "upper", "strip", "replace",
    "findall", "children", "fn", "cls", "mod", "meth", "mod%", "floordiv", "mul", "int", "enumv", "enumn", "idx",
    "first_", "set", "dict", "xmlel", "range", "sorted", "join", "encode", "decode", "dt", "fold", "tostring",
}


_ARITH = {"aff", "maxn", "mod%", "floordiv", "pow2", "mul", "abs", "len"}


def eq_leaf(a: T, b: T) -> int:
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if is_const(a) or (b.op == "enum" and a.op != "enum"):
        pass
    elif is_const(b) or a.op == "enum":
        a, b = b, a
    # now, if one side is constant-like it is a ... normalise: const-like second
    if is_const(a) or a.op == "enum":
        a, b = b, a
    if b.op == "c" and cval(b) is None:
        return is_none(a)
    if a.op == "nth" and b.op == "nth" and a.args[0] is b.args[0] and (
            a.ty is not None and all(x[0] == "cls" for x in a.ty) or a.args[0].ty is not None and any(x[0] == "set" for x in a.args[0].ty)):
        return FALSE  # bounded analysis: the elements of a list are different objects
    if a.op == "enum" and b.op == "enum":
        return FALSE
    if a.op == "enum" and b.op == "c":
        return FALSE
    # attr(enumterm,'value') == 'token'  -> member test
    ta, tb = tyof(a), tyof(b)
    intish = lambda t: t is not None and t <= frozenset({("int",), ("none",), ("bool",)}) and ("int",) in t
    if intish(ta) and intish(tb) and ("none",) not in (ta | tb):
        return eq0(aff_add(a, b, -1))
    if intish(ta) and intish(tb) and (a.op in _ARITH or b.op in _ARITH):
        na, nb = is_none(a), is_none(b)
        return bor(band(na, nb), band(bnot(na), bnot(nb), eq0(aff_add(a, b, -1))))
    if intish(ta) and b.op == "c" and isinstance(cval(b), int):
        return band(bnot(is_none(a)), eq0(aff_add(a, b, -1)))
    boolish = lambda t: t is not None and t <= frozenset({("bool",), ("none",)}) and ("bool",) in t
    if boolish(ta) and b.op == "c" and isinstance(cval(b), bool):
        tr = atom_bdd(mk("tru", a))
        return band(bnot(is_none(a)), tr if cval(b) else bnot(tr))
    if boolish(ta) and boolish(tb):
        x, y, nx, ny = atom_bdd(mk("tru", a)), atom_bdd(mk("tru", b)), is_none(a), is_none(b)
        return bor(band(nx, ny), band(bnot(nx), bnot(ny), bor(band(x, y), band(bnot(x), bnot(y)))))
    if ta is not None and tb is not None and not (ta & tb):
        simple = {("int",), ("str",), ("none",), ("bytes",)}
        if ta <= simple and tb <= simple:
            return FALSE
    if a.op == "lower" and b.op == "c" and isinstance(cval(b), str):
        if cval(b).lower() != cval(b):
            return FALSE
        if cval(b).upper() == cval(b):
            return eq_leaf(a.args[0], b)
    if is_const(b) or b.op == "enum":
        # equalities with different constants exclude each other (and None): an ordered encoding
        low = a.op == "lower"
        reg = _eqreg.setdefault(a.args[0] if low else a, [])
        if (a, b) not in reg:
            reg.append((a, b))
        g = bnot(is_none(a))
        for t, c in reg:
            if t is a and c is b:
                break
            x, y = c, b
            if t is not a:
                # the text and its lower-case form
                if not (c.op == "c" and b.op == "c" and isinstance(cval(c), str) and isinstance(cval(b), str)):
                    continue
                x, y = (C(cval(c).lower()), b) if low else (c, C(cval(b).lower()))
            if _const_ne(x, y):
                g = band(g, bnot(atom_bdd(mk("eq", t, c))))
        return band(g, atom_bdd(mk("eq", a, b)))
    if a.uid > b.uid:
        a, b = b, a
    return atom_bdd(mk("eq", a, b))


_eqreg: dict = {}


def _const_ne(c, b):
    if c.op == "enum" or b.op == "enum":
        return True
    return cval(c) != cval(b)


_INTISH = frozenset({("int",), ("bool",), ("none",)})


def int_op(op, *args):
    """integer division, remainder and power of two, folded and reduced"""
    a = args[0]
    if any(x.op == "g" for x in args):
        return None
    if op == "pow2":
        if is_const(a) and isinstance(cval(a), int) and 0 <= cval(a) < 4096:
            return C(1 << cval(a))
        return mk("pow2", a, ty=T_INT)
    b = args[1]
    if is_const(b) and isinstance(cval(b), int) and not isinstance(cval(b), bool) and cval(b) > 0 and tyof(a) is not None and tyof(a) <= _INTISH:
        m = cval(b)
        if op == "mod%" and m == 1:
            return C(0)
        if op == "floordiv" and m == 1:
            return a
        k, d = aff_parts(a)
        if op == "mod%":
            r = C(k % m)
            for x, c in d.items():
                if c % m:
                    r = aff_add(r, aff_scale(x, c % m))
            if is_const(r):
                return C(cval(r) % m)
            return mk("mod%", r, b, ty=T_INT)
        q, r = C(k // m), C(k % m)
        for x, c in d.items():
            if c // m:
                q = aff_add(q, aff_scale(x, c // m))
            if c % m:
                r = aff_add(r, aff_scale(x, c % m))
        if is_const(r):
            return q
        return aff_add(q, mk("floordiv", r, b, ty=T_INT))
    return mk(op, a, b, ty=T_INT)


def val_of(t):
    if isinstance(t, T) and t.op == "g":
        return gate([(t.args[i].args[0], t.args[i + 1]) for i in range(0, len(t.args), 2)])
    return t


def one(g, v):
    return mk("one", bterm(g), gterm(v))


def splat(t, g=TRUE):
    return mk("splat", bterm(g), t)


def each(e, src, inner, g=TRUE):
    return mk("each", bterm(g), e, src, tuple(inner))


def one_by_one(its):
    """items for a fold in which the order does not matter: every alternative its own item, in a fixed order"""
    out, rest = {}, []
    for it in its:
        if it.op == "one":
            for g, l in alts(val_of(it.args[1])):
                g = band(g, it.args[0].args[0])
                old = [o for o in out.get(l, ()) if band(o, g) == FALSE]
                if old:
                    out[l].remove(old[0])
                    g = bor(g, old[0])
                if g != FALSE:
                    out.setdefault(l, []).append(g)
        elif it.op == "each":
            rest.append(each(it.args[1], it.args[2], one_by_one(it.args[3]), it.args[0].args[0]))
        else:
            rest.append(it)
    return tuple(one(g, l) for l in sorted(out, key=lambda x: x.uid) for g in sorted(out[l])) + tuple(rest)


class Subst:
    def __init__(self, m, heapclone=None):
        self.m = m
        self.memo = {}
        self.bmemo = {}
        self.heapclone = heapclone

    def term(self, t):
        if t in self.m:
            return self.m[t]
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "c":
            r = t
        elif t.op == "b":
            r = bterm(self.bdd(t.args[0]))
        elif t.op == "ref":
            r = self.heapclone(t, self) if self.heapclone else t
        elif t.op == "aff":
            k, d = t.args[0], t.args[1]
            r = C(k)
            for c, x in d:
                r = aff_add(r, aff_scale(self.term(x), c))
        else:
            na = tuple(self.arg(a) for a in t.args)
            r = t if na == t.args else None
            if r is None and t.op in ("mod%", "floordiv", "pow2"):
                r = int_op(t.op, *na)
            if r is None and t.op == "mul" and any(is_const(x) for x in na):
                n = 1
                for x in na:
                    n *= cval(x) if is_const(x) else 1
                free = [x for x in na if not is_const(x)]
                r = C(n) if not free or n == 0 else aff_scale(free[0] if len(free) == 1 else mk("mul", *sorted(free, key=lambda x: x.uid), ty=T_INT), n)
            if r is None and t.op == "g":
                r = gterm(gate([(band(na[i].args[0], g2), l2) for i in range(0, len(na), 2) for g2, l2 in alts(val_of(na[i + 1]))]))
            if r is None and t.op == "maxn" and na[0] in ("max", "min") and sum(is_const(x) for x in na[1]) and len(set(na[1])) > 1:
                cs = [x for x in na[1] if is_const(x)]
                free = tuple(x for x in na[1] if not is_const(x))
                top = C((max if na[0] == "max" else min)(cval(x) for x in cs))
                r = top if not free else mk("maxn", na[0], free + (top,), ty=t.ty)
            if r is None and t.op == "maxn" and len(set(na[1])) == 1:
                r = na[1][0]
            if r is None and t.op == "fold" and na[0] in ("max", "min", "sum"):
                r = mk("fold", na[0], na[1], one_by_one(na[2]), ty=t.ty)
            if r is None:
                r = mk(t.op, *na, ty=t.ty)
            if r is not t and t.op == "item" and na[0].op == "lst":
                i = na[1] if isinstance(na[1], int) else cval(na[1]) if isinstance(na[1], T) and is_const(na[1]) else None
                its = na[0].args[1]
                if isinstance(i, int) and -len(its) <= i < len(its) and all(x.op == "one" and x.args[0].args[0] == TRUE for x in its):
                    r = its[i].args[1]
            if r is not t and t.op == "attr" and na[0].op == "obj" and na[0].args[1] != "...":
                for k, v in na[0].args[1]:
                    if k == na[1]:
                        r = v
                        break
        self.memo[t] = r
        return r

    def plain(self, t):
        """substitute in the arguments, leaving atoms unnormalised"""
        if t.op == "aff":
            return self.term(t)
        return mk(t.op, *(self.arg(a) for a in t.args), ty=t.ty)

    def arg(self, a):
        if isinstance(a, T):
            return self.term(a)
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        return a

    def bdd(self, b):
        if b <= 1:
            return b
        r = self.bmemo.get(b)
        if r is not None:
            return r
        v, lo, hi = _bnodes[b]
        a = _atoms[v]
        na = self.term(a)
        ab = atom_bdd(a) if na is a else rebuild_atom(na)
        r = ite(ab, self.bdd(hi), self.bdd(lo))
        self.bmemo[b] = r
        return r

    def val(self, v):
        return gate([(self.bdd(g), self.term(l)) for g, l in alts(v)])


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------


def show(t, d=0) -> str:
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "c":
        return repr(a[1])
    if o == "in":
        return f"{s(a[0])} in {s(a[1])}" if len(a) == 2 else f"<{a[0]}>"
    if o == "sym":
        return str(a[0])
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "enum":
        return f"{a[0].split('.')[-1]}.{a[1]}"
    if o == "b":
        return showb(a[0], d + 1)
    if o == "g":
        return "{" + "; ".join(f"{s(a[i+1])} if {s(a[i])}" for i in range(0, len(a), 2)) + "}"
    if o == "aff":
        parts = [f"{'' if c == 1 else str(c) + '*'}{s(x)}" for c, x in a[1]]
        if a[0]:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")"
    if o == "elem":
        return f"elem[{s(a[0])}]" + ("'" * a[1] if len(a) > 1 and isinstance(a[1], int) else "")
    if o == "findall":
        return f"{s(a[0])}/{s(a[1]).strip(chr(39))}"
    return f"{o}(" + ", ".join(s(x) if isinstance(x, T) else _showx(x, d) for x in a) + ")"


def _showx(x, d):
    if isinstance(x, tuple):
        return "(" + ", ".join(_showx(y, d) if not isinstance(y, T) else show(y, d + 1) for y in x) + ")"
    return str(x)


def showb(b, d=0) -> str:
    if b == TRUE:
        return "T"
    if b == FALSE:
        return "F"
    try:
        cs = []
        for c in cubes(b, 6):
            cs.append(" & ".join(("" if v else "!") + show(a, d + 1) for a, v in c.items()))
        return " | ".join(cs)
    except TooBig:
        return f"<guard#{b}>"
