"""Consistency of sets of guard literals (cubes).

Sound in the direction that matters for alarms: a cube is only used as a
witness of a violation when every atom in it is understood and no rule below
refutes it.  A cube called inconsistent is refuted by an explicit rule.
"""
from __future__ import annotations

import ast

from .core import *  # noqa: F401,F403
from . import core, strings
from .core import TooBig, aff_parts, cubes, is_const, cval, tyof

_feas: dict = {}
_big: set = set()
toobig = [0]  # how often a consistency question was left open (a witness found meanwhile is not one)


_ess: dict = {}


def essential(b) -> frozenset:
    """literals common to every path of the guard to TRUE"""
    if b <= 1:
        return frozenset()
    r = _ess.get(b)
    if r is not None:
        return r
    stack = [b]
    while stack:
        n = stack[-1]
        if n in _ess or n <= 1:
            stack.pop()
            continue
        v, lo, hi = core._bnodes[n]
        todo = [x for x in (lo, hi) if x > 1 and x not in _ess]
        if todo:
            stack += todo
            continue
        stack.pop()
        el = frozenset() if lo <= 1 else _ess[lo]
        eh = frozenset() if hi <= 1 else _ess[hi]
        if lo == FALSE:
            _ess[n] = eh | {(v, True)}
        elif hi == FALSE:
            _ess[n] = el | {(v, False)}
        else:
            _ess[n] = el & eh
    return _ess[b]


def strong(b, prog, ok, budget=1500, depth=0):
    """a path of the guard that some input takes, as far as ok atoms go: an atom that is not ok may only say that no
    (or some) entry of a collection satisfies a condition, and then that can be arranged: the collection may be empty, or
    an entry is found to satisfy what is said of all of them"""
    if b == FALSE:
        return None
    if b == TRUE:
        return {}
    if depth > 5:
        return None

    def quant(a):
        return a.op in ("exists", "nonempty") or ok(a)

    def accept(lits):
        groups: dict = {}
        for a, v in lits.items():
            if ok(a):
                continue
            if a.op == "nonempty":
                if v:
                    return False
                groups.setdefault(("n", a.args[0]), None)
            else:
                groups.setdefault((a.args[0], a.args[1]), None)
        for key in groups:
            if key[0] == "n":
                if any(occurs_src(key[1], a) for a in lits if a.op != "nonempty"):
                    return False
                continue
            e, src = key
            ps, ns, own = [], [], TRUE
            filled = lits.get(mk("nonempty", src)) is True
            for a, v in lits.items():
                if a.op == "exists" and a.args[0] is e and a.args[1] is src:
                    (ps if v else ns).append(a.args[2].args[0])
                elif occurs(e, a):
                    if not ok(a):
                        return False
                    ab = atom_bdd(a)
                    own = band(own, ab if v else bnot(ab))
            none = bnot(bor(*ns))
            cands = list(ps)
            if own != TRUE:
                cands.append(own)
            elif filled and not cands:
                cands.append(TRUE)
            for p in cands:
                if strong(band(p, none), prog, ok, max(50, budget // 4), depth + 1) is None:
                    return False
        return True

    return search(b, prog, quant, budget, accept)


def occurs_src(src, a):
    """the atom speaks of an entry of the collection"""
    return any(x.op in ("elem", "exists") and src in x.args for x in _subterms(a))


_subt: dict = {}


def _subterms(a):
    r = _subt.get(a)
    if r is None:
        seen, stack = set(), [a]
        while stack and len(seen) < 4000:
            t = stack.pop()
            if isinstance(t, tuple):
                stack += t
            elif isinstance(t, T) and t not in seen:
                seen.add(t)
                if t.op == "b":
                    stack += list(support(t.args[0]))
                else:
                    stack += list(t.args)
        r = _subt[a] = seen
    return r


def search(b, prog, ok=None, budget=1500, accept=None):
    """first consistent path of the guard (depth first, refuted prefixes are cut), or None"""
    if b == FALSE:
        return None
    if b == TRUE:
        return {}
    es = {core._atoms[v]: s for v, s in essential(b)}
    if ok is not None and not all(ok(a) for a in es):
        return None
    if es and not consistent(es, prog):
        return None
    left = [budget]
    refuted: list = []

    def go(n, lits, branched):
        while True:
            if n == FALSE:
                return None
            if n == TRUE:
                left[0] -= 1
                if left[0] < 0:
                    raise TooBig()
                return dict(lits) if consistent(lits, prog) and (accept is None or accept(lits)) else None
            v, lo, hi = core._bnodes[n]
            a = core._atoms[v]
            if ok is not None and not ok(a):
                if lo == hi:
                    n = lo
                    continue
                return None
            if lo == FALSE:
                lits = dict(lits)
                lits[a] = True
                n = hi
                continue
            if hi == FALSE:
                lits = dict(lits)
                lits[a] = False
                n = lo
                continue
            if branched:
                left[0] -= 1
                if left[0] < 0:
                    raise TooBig()
                if not consistent(lits, prog):
                    return None
            for x, s in ((lo, False), (hi, True)):
                l2 = dict(lits)
                l2[a] = s
                l2.update({core._atoms[w]: q for w, q in essential(x)})
                r = go(x, l2, True)
                if r is not None:
                    return r
            return None

    return go(b, dict(es), False)


def feasible(b, prog, limit=600) -> bool:
    if b == TRUE:
        return True
    if b == FALSE:
        return False
    r = _feas.get(b)
    if r is None:
        try:
            r = search(b, prog, None, limit) is not None
        except TooBig:
            r = True
            _big.add(b)
        _feas[b] = r
    if b in _big:
        toobig[0] += 1
    return r


def witness(b, prog, ok=None, limit=3000):
    """a consistent path of b whose atoms all satisfy ok (or None); raises TooBig"""
    return search(b, prog, ok, limit)


# --------------------------------------------------------------------------


class Refuted(Exception):
    pass


_plain = [False]


def ordinary(cube, prog) -> bool:
    """consistent also when no number a description states is below zero (none can be)"""
    _plain[0] = True
    try:
        return consistent(cube, prog)
    finally:
        _plain[0] = False


def consistent(cube, prog, depth=0) -> bool:
    try:
        _check(cube, prog, depth)
        return True
    except Refuted:
        return False


def _check(cube, prog, depth):
    parent: dict = {}

    def find(t):
        while t in parent:
            t = parent[t]
        return t

    none, tru, nonempty_, isa = {}, {}, {}, []
    neqs, lin, exs, lts, ins = [], [], [], [], []
    for a, v in cube.items():
        o = a.op
        if o == "eq":
            if v:
                x, y = find(a.args[0]), find(a.args[1])
                if x is not y:
                    if is_const(x) or x.op == "enum":
                        x, y = y, x
                    if is_const(x) or x.op == "enum":
                        raise Refuted
                    parent[x] = y
            else:
                neqs.append(a)
        elif o == "none":
            none[a.args[0]] = v
        elif o == "tru":
            tru[a.args[0]] = v
        elif o == "nonempty":
            nonempty_[a.args[0]] = v
        elif o == "isa":
            isa.append((a.args[0], a.args[1], v))
        elif o in ("le0", "eq0"):
            lin.append((o, a.args[0], v))
        elif o == "exists":
            exs.append((a.args[0], a.args[1], a.args[2].args[0], v))
        elif o == "lt":
            lts.append((a.args[0], a.args[1], v))
        elif o == "in" and len(a.args) == 2:
            ins.append((a.args[0], a.args[1], v))
    # pure functions of known constants
    if parent:
        changed = True
        rounds = 0
        while changed and rounds < 3:
            changed = False
            rounds += 1
            for a in cube:
                for t in _pure_terms(a):
                    v = _eval_pure(t, find)
                    if v is None:
                        continue
                    r, c = find(t), C(v)
                    if r is c:
                        continue
                    if is_const(r):
                        raise Refuted
                    if r is t or not is_const(r):
                        parent[r] = c
                        changed = True
    if strings.refuted(cube, find, none):
        raise Refuted
    # none-ness per equivalence class
    cn: dict = {}
    for t, v in none.items():
        r = find(t)
        if is_const(r) or r.op == "enum":
            if v:
                raise Refuted
            continue
        if cn.setdefault(r, v) != v:
            raise Refuted
    # x is None => attributes etc. of x are meaningless, no conflict
    for a in neqs:
        if find(a.args[0]) is find(a.args[1]):
            raise Refuted
        if is_const(find(a.args[0])) and is_const(find(a.args[1])) and cval(find(a.args[0])) == cval(find(a.args[1])):
            raise Refuted
    for t, v in tru.items():
        r = find(t)
        if v and cn.get(r) is True:
            raise Refuted
        if is_const(r) and bool(cval(r)) != v:
            raise Refuted
        if r.op == "enum" and not v:
            raise Refuted
    for t, v in nonempty_.items():
        if v and cn.get(find(t)) is True:
            raise Refuted
    # classes of equal-to-constant terms: positive const implies not none handled; enum exhaustiveness
    byterm: dict = {}
    for a in neqs:
        x, y = a.args
        if y.op == "enum":
            byterm.setdefault(find(x), set()).add(y.args[1])
        if y.op == "c" and isinstance(cval(y), str):
            byterm.setdefault(find(x), set())
    for t, excl in byterm.items():
        if t.ty is None or t.op == "enum" or is_const(t):
            continue
        if cn.get(t) is True:
            continue
        rest = [x for x in t.ty if x != ("none",)]
        if len(rest) == 1 and rest[0][0] == "cls" and prog is not None:
            c = prog.classes.get(rest[0][1])
            if c is not None and prog.is_enum(c):
                if ("none",) in t.ty and cn.get(t) is not False:
                    continue
                if all(n in excl for n, _ in prog.enum_members(c)):
                    raise Refuted
    # isa
    pos: dict = {}
    neg: dict = {}
    for t, n, v in isa:
        r = find(t)
        if v and cn.get(r) is True:
            raise Refuted
        (pos if v else neg).setdefault(r, set()).add(n)
    for r, ps in pos.items():
        ps_ = sorted(ps)
        for i, p in enumerate(ps_):
            for q in ps_[i + 1:]:
                if _disjoint(p, q, prog):
                    raise Refuted
            for q in neg.get(r, ()):
                if p == q or _sub(p, q, prog):
                    raise Refuted
    # strict order
    for x, y, v in lts:
        if v and find(x) is find(y):
            raise Refuted
    pl = {(x, y) for x, y, v in lts if v}
    for x, y in pl:
        if (y, x) in pl:
            raise Refuted
    # exists / nonempty
    bysrc: dict = {}
    for e, src, b, v in exs:
        bysrc.setdefault((e, src), ([], []))[0 if v else 1].append(b)
        if v and nonempty_.get(src) is False:
            raise Refuted
    for (e, src), (ps, ns) in bysrc.items():
        excl = bor(*ns)
        cands = list(ps)
        if nonempty_.get(src) is True:
            cands.append(TRUE)
        for p in cands:
            rest = band(p, bnot(excl))
            if ns and rest != FALSE and core.occurs_op("before", core.bterm(p)):
                # what holds of no element holds of no earlier one either
                pe = mk("prev", e, ty=e.ty)
                rest = band(rest, bnot(core.exists(pe, mk("before", e, src), core.Subst({e: pe}).bdd(excl))))
            if rest == FALSE:
                raise Refuted
            if depth < 8 and not feasible(rest, prog, EX_BUDGET):
                raise Refuted
    for x, c, v in ins:
        if v and nonempty_.get(c) is False:
            raise Refuted
    # linear arithmetic
    if lin:
        _linear(lin, nonempty_, find, tru, _set_sizes(lin, exs, nonempty_, find, prog, depth))
        if depth < 6:
            _congruence(cube, lin, find, prog, depth)


_NONLIN = ("mod%", "floordiv", "pow2", "mul", "maxn")
_nl: dict = {}


def _inner_vars(a):
    """integer terms that occur under a non-linear operator of the atom"""
    r = _nl.get(a)
    if r is not None:
        return r
    out, stack, seen = set(), [(a, False)], set()
    while stack and len(seen) < 600:
        t, inside = stack.pop()
        if (t, inside) in seen:
            continue
        seen.add((t, inside))
        if inside:
            out.add(t)
        if t.op == "b":
            continue
        inn = inside or t.op in _NONLIN

        def push(x):
            if isinstance(x, T):
                stack.append((x, inn))
            elif isinstance(x, tuple):
                for y in x:
                    push(y)
        for x in t.args:
            push(x)
    r = _nl[a] = frozenset(out)
    return r


def _congruence(cube, lin, find, prog, depth):
    m = {}
    for o, t, v in lin:
        if o == "eq0" and v:
            k, d = aff_parts(t)
            if len(d) == 1:
                (x, c), = d.items()
                if k % c == 0 and x not in m:
                    m[x] = C(-k // c)
    if not m:
        return
    inner = set().union(*[_inner_vars(a) for a in cube if a.op in ("le0", "eq0")])
    m = {x: c for x, c in m.items() if x in inner}
    if not m:
        return
    todo = [a for a in cube if a.op in ("le0", "eq0") and any(x in m for x in _inner_vars(a))]
    if not todo:
        return
    S = core.Subst(m)
    g = TRUE
    keep = {}
    for a, v in cube.items():
        if a in todo:
            b = core.rebuild_atom(S.term(a))
            g = band(g, b if v else bnot(b))
            if g == FALSE:
                raise Refuted
        elif a.op in ("le0", "eq0"):
            keep[a] = v
    if g == TRUE:
        return
    for a, v in keep.items():
        b = core.atom_bdd(a)
        g = band(g, b if v else bnot(b))
    if g == FALSE:
        raise Refuted
    es = {core._atoms[v]: s for v, s in essential(g)}
    if es and not consistent(es, prog, depth + 1):
        raise Refuted


EX_BUDGET = 2000
PURE = {"lower": str.lower, "upper": str.upper, "strip": str.strip, "casefold": str.casefold, "capitalize": str.capitalize}
_pt: dict = {}


def _pure_terms(a):
    r = _pt.get(a)
    if r is not None:
        return r
    out, stack, seen = [], [a], set()
    n = 0
    while stack and n < 400:
        t = stack.pop()
        n += 1
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == "b":
            continue
        if t.op in PURE and len(t.args) == 1 and isinstance(t.args[0], T):
            out.append(t)
        for x in t.args:
            if isinstance(x, T):
                stack.append(x)
    out.reverse()
    _pt[a] = tuple(out)
    return _pt[a]


def _eval_pure(t, find):
    x = find(t.args[0])
    if is_const(x) and isinstance(cval(x), str):
        return PURE[t.op](cval(x))
    return None


def _sub(p, q, prog):
    c = prog.classes.get(p) if prog is not None else None
    return c is not None and prog.subclass_of(c, q)


def _disjoint(p, q, prog):
    if prog is None:
        return False
    cp, cq = prog.classes.get(p), prog.classes.get(q)
    if cp is None or cq is None:
        return p != q and (p in _PRIM) and (q in _PRIM | set()) and not {p, q} == {"int", "bool"}
    if p == q:
        return False
    for c in prog.classes.values():
        n = prog.base_names(c)
        if p in n and q in n:
            return False
    return True


_PRIM = {"int", "str", "bytes", "list", "dict", "set", "tuple", "float", "bool"}


def _set_sizes(lin, exs, nonempty_, find, prog, depth):
    """bounds on the number of different values of a sequence's elements: what is known to occur, and what is known not to"""
    out = []
    seen = set()
    for _, t, _ in lin:
        for x in aff_parts(t)[1]:
            if x.op != "len" or x in seen or x.args[0].op != "lst" or x.args[0].args[0] != "set":
                continue
            seen.add(x)
            its = x.args[0].args[1]
            if len(its) != 1 or its[0].op != "each" or its[0].args[0].args[0] != TRUE or len(its[0].args[3]) != 1:
                continue
            _, e, src, (i,) = its[0].args
            if i.op != "one" or i.args[0].args[0] != TRUE or not isinstance(i.args[1], T) or i.args[1].op == "g":
                continue
            v = i.args[1]
            mine = [(Subst({e2: e}).bdd(b) if e2 is not e else b, w) for e2, s2, b, w in exs if s2 is src]
            ok = TRUE
            for b, w in mine:
                if not w:
                    ok = band(ok, bnot(b))
            vals = {}
            for b, w in mine:
                for a in core.support(b):
                    if a.op == "eq" and a.args[0] is v and (a.args[1].op == "enum" or is_const(a.args[1])):
                        vals[a.args[1]] = core.eq_leaf(v, a.args[1])
            if not vals:
                continue
            rest = band(ok, bnot(is_none(v)), *[bnot(g) for g in vals.values()])
            if band(ok, is_none(v)) == FALSE and (rest == FALSE or (depth < 8 and not feasible(rest, prog, EX_BUDGET))):
                out.append(({x: 1}, -sum(1 for g in vals.values() if band(ok, g) != FALSE)))
            some = sum(1 for g in vals.values() if any(w and band(b, ok, bnot(g)) == FALSE for b, w in mine))
            if some:
                out.append(({x: -1}, some))
    return out


def _linear(lin, nonempty_, find, tru, rows=()):
    # rows: (coefs dict, const): sum + const <= 0
    rows, dis = list(rows), []

    def parts(t):
        k, d = aff_parts(t)
        out: dict = {}
        for x, c in d.items():
            r = find(x)
            if is_const(r) and isinstance(cval(r), int):
                k += c * cval(r)
            else:
                out[r] = out.get(r, 0) + c
        return {x: c for x, c in out.items() if c}, k

    for o, t, v in lin:
        d, k = parts(t)
        nd = {x: -c for x, c in d.items()}
        if o == "le0":
            rows.append((d, k) if v else (nd, -k + 1))
        elif v:
            rows.append((d, k))
            rows.append((nd, -k))
        else:
            dis.append((d, k))
    vars_ = {x for d, _ in rows + dis for x in d}
    for x in list(vars_) if _plain[0] else ():
        y = x.args[0] if x.op == "floordiv" and is_const(x.args[1]) and cval(x.args[1]) > 0 else x
        if y.op in ("attr", "elem", "nth", "sym"):
            rows.append(({x: -1}, 0))
    for x in list(vars_):
        if x.op in ("len", "idx", "pow2", "stri"):
            lo = 1 if x.op == "pow2" or x.op == "stri" and x.args[0] == "count" else 0
            rows.append(({x: -1}, lo))
        if x.op == "len":
            ne = nonempty_.get(x.args[0])
            if ne is True:
                rows.append(({x: -1}, 1))
            elif ne is False:
                rows.append(({x: 1}, 0))
        if x.op == "len" and x.args[0].op == "lst" and x.args[0].args[0] in ("set", "dict"):
            # no more members than there are places that add one
            up = _places(x.args[0].args[1])
            if up is not None:
                row, n = {x: 1}, 0
                for s in up:
                    if s is None:
                        n += 1
                    else:
                        y = mk("len", s, ty=core.T_INT)
                        row[y] = row.get(y, 0) - 1
                        if y not in vars_:
                            rows.append(({y: -1}, 0))
                rows.append((row, -n))
        if x.op == "mod%" and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and cval(x.args[1]) > 0:
            rows.append(({x: -1}, 0))
            rows.append(({x: 1}, 1 - cval(x.args[1])))
        if x.op == "floordiv" and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and cval(x.args[1]) > 0:
            q = cval(x.args[1])
            d, k = parts(x.args[0])
            row = dict(d)
            row[x] = row.get(x, 0) - q
            rows.append(({z: -c for z, c in row.items() if c}, -k))
            rows.append(({z: c for z, c in row.items() if c}, k - q + 1))
            for y in list(vars_):
                if y.op == "mod%" and y.args == x.args:
                    r2 = dict(row)
                    r2[y] = r2.get(y, 0) - 1
                    rows.append(({z: c for z, c in r2.items() if c}, k))
                    rows.append(({z: -c for z, c in r2.items() if c}, -k))
        if x.op == "maxn":
            for y in x.args[1]:
                d, k = parts(y)
                d = dict(d)
                s = 1 if x.args[0] == "max" else -1
                row = {z: s * c for z, c in d.items()}
                row[x] = row.get(x, 0) - s
                rows.append(({z: c for z, c in row.items() if c}, s * k))
    picks = []
    for x in list(vars_):
        if x.op == "maxn" and len(picks) < 3 and len(x.args[1]) <= 4:
            # it is one of them
            alt = []
            for y in x.args[1]:
                d, k = parts(y)
                row = dict(d)
                row[x] = row.get(x, 0) - 1
                alt.append([({z: c for z, c in row.items() if c}, k), ({z: -c for z, c in row.items() if c}, -k)])
            picks.append(alt)
    if picks:
        import itertools

        dd = dis[:5]

        def ok(rs, i=0):
            if not _fm(rs):
                return False
            if i == len(dd):
                return True
            d, k = dd[i]
            return ok(rs + [(d, k + 1)], i + 1) or ok(rs + [({x: -c for x, c in d.items()}, -k + 1)], i + 1)

        if not any(ok(rows + [r for p in combo for r in p]) for combo in itertools.product(*picks)):
            raise Refuted
        return
    if not _fm(rows):
        raise Refuted
    # disequalities: case split, bounded
    if dis:
        dis = dis[:5]

        def go(i, rs):
            if i == len(dis):
                return True
            d, k = dis[i]
            for dd, kk in ((d, k + 1), ({x: -c for x, c in d.items()}, -k + 1)):
                r2 = rs + [(dd, kk)]
                if _fm(r2) and go(i + 1, r2):
                    return True
            return False

        if not go(0, rows):
            raise Refuted


def _places(items):
    """upper bound on the number of members: None for a single one, a sequence for one per element of it"""
    out = []
    for it in items:
        if it.op in ("one", "kv"):
            out.append(None)
        elif it.op == "splat":
            out.append(it.args[1])
        elif it.op == "each":
            if any(i.op not in ("one", "kv") for i in it.args[3]):
                return None
            inner, disj = it.args[3], TRUE
            for n, i in enumerate(inner):
                for j in inner[:n]:
                    if band(i.args[0].args[0], j.args[0].args[0]) != FALSE:
                        disj = FALSE
            out += [it.args[2]] * (1 if disj == TRUE else len(inner))
        else:
            return None
    return out


def _fm(rows, cap=400) -> bool:
    """rational feasibility of  sum + k <= 0  rows with integer tightening; True when unsure"""
    from math import gcd

    def norm(d, k):
        if not d:
            return d, k
        g = 0
        for c in d.values():
            g = gcd(g, abs(c))
        if g > 1:
            d = {x: c // g for x, c in d.items()}
            k = -((-k) // g)
        return d, k

    cur = {}
    for d, k in rows:
        d, k = norm(d, k)
        if not d:
            if k > 0:
                return False
            continue
        key = frozenset(d.items())
        if key not in cur or cur[key] < k:
            cur[key] = k
    while cur:
        # choose variable with the least product
        occ: dict = {}
        for key in cur:
            for x, c in key:
                p = occ.setdefault(x, [0, 0])
                p[0 if c > 0 else 1] += 1
        x = min(occ, key=lambda v: (occ[v][0] * occ[v][1], v.uid))
        if len(cur) > cap:
            return True
        pos, neg, rest = [], [], {}
        for key, k in cur.items():
            d = dict(key)
            c = d.get(x, 0)
            if c > 0:
                pos.append((d, k))
            elif c < 0:
                neg.append((d, k))
            else:
                rest[key] = k
        for d1, k1 in pos:
            for d2, k2 in neg:
                a, b = -d2[x], d1[x]
                d = {}
                for y, c in d1.items():
                    d[y] = d.get(y, 0) + a * c
                for y, c in d2.items():
                    d[y] = d.get(y, 0) + b * c
                d = {y: c for y, c in d.items() if c}
                dd, kk = norm(d, a * k1 + b * k2)
                if not dd:
                    if kk > 0:
                        return False
                    continue
                key = frozenset(dd.items())
                if key not in rest or rest[key] < kk:
                    rest[key] = kk
        cur = rest
    return True


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------

OPAQUE_OPS = {"opaque", "rec", "havoc", "loopin", "loopout", "unknown", "match", "call", "stopped", "prefix", "carry", "lastv", "heap",
              "bottom", "unbound", "mixed", "star", "kwget", "op", "iter", "while", "back", "splatu", "getitem", "item",
              "slice", "extcall", "raises_", "missing", "format", "dget", "obj...", "rematchs", "re", "regex"}

_NUMBER_METHODS = {"bit_count", "to_bytes", "as_integer_ratio", "is_integer", "conjugate"}
_und: dict = {}


BOUNDED = False  # the analysis is of lists of a given number of elements


def understood(t) -> bool:
    """every operator of the term is interpreted (so a syntactic difference is a real one)"""
    if not isinstance(t, T):
        return True
    r = _und.get(t)
    if r is not None:
        return r
    _und[t] = True
    if t.op == "dget" and t.args[0].op == "nsmap":
        r = all(_und_arg(a) for a in t.args)
    elif BOUNDED and t.op in ("getitem", "dget") and t.args[0].op == "attr":
        r = all(_und_arg(a) for a in t.args)  # bounded analysis: what a container of the program holds there is a free choice
    elif t.op == "item" and isinstance(t.args[0], T) and t.args[0].op in ("app", "item") and not isinstance(t.args[1], T):
        r = understood(t.args[0])  # a component of what an opaque function returns is as free as the whole
    elif t.op == "item" and isinstance(t.args[0], T) and t.args[0].op == "split":
        r = all(_und_arg(a) for a in t.args)  # a witness needs a text on which it holds (strings.trusted)
    elif t.op in ("re", "strm", "slice", "cat") and (peeled := strings.peel(t)) is not None:
        r = _und_arg(peeled[0])  # likewise
    elif t.op == "mcall" and t.args[1] in _NUMBER_METHODS:
        r = False  # arithmetic the rules below know nothing of
    elif t.op in OPAQUE_OPS or t.op == "product" and any(n == "repeat" and not is_const(v) for n, v in t.args[1]):
        r = False
    elif t.op == "b":
        r = all(understood(a) for a in support(t.args[0]))
    else:
        r = all(_und_arg(a) for a in t.args)
    _und[t] = r
    return r


def _und_arg(a):
    if isinstance(a, T):
        return understood(a)
    if isinstance(a, tuple):
        return all(_und_arg(x) for x in a)
    return True
