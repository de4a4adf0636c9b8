"""What several conditions on one text have in common: each is turned into an automaton over the text they all look at,
through lower-casing, stripping, replacing and slicing, and conditions no text satisfies together refute each other."""
from __future__ import annotations

import re

from .core import T, cval, is_const, tyof, T_STR, T_INT, aff_parts
from . import core

WS = " \t\n\r\x0b\x0c"
BASE = "0179aAbBfFgxXoO_-+ \t\n#,.[]%s:e\xe9"
MAXSTATES = 4000


class Give(Exception):
    pass


# ---- automata: (start, step, accepting, special characters) ---------------------------------------------------------
# step(state, char) -> state; states hashable


class Lang:
    __slots__ = ("start", "step", "acc", "chars")

    def __init__(self, start, step, acc, chars):
        self.start, self.step, self.acc, self.chars = start, step, acc, frozenset(chars)


_START = object()


def run(L, s, q=_START):
    q = L.start if q is _START else q
    for ch in s:
        q = L.step(q, ch)
    return q


def const(words):
    ws = frozenset(words)

    def step(q, ch):
        if q is None:
            return None
        q = q + ch
        return q if any(w.startswith(q) for w in ws) else None

    return Lang("", step, lambda q: q in ws, {c for w in ws for c in w})


def starts(p):
    def step(q, ch):
        if q < 0 or q == len(p):
            return q
        return q + 1 if p[q] == ch else -1

    return Lang(0, step, lambda q: q == len(p), set(p))


def _kmp(p):
    f = [0] * (len(p) + 1)
    k = 0
    for i in range(1, len(p)):
        while k and p[k] != p[i]:
            k = f[k]
        if p[k] == p[i]:
            k += 1
        f[i + 1] = k
    return f


def ends(p):
    f = _kmp(p)

    def step(q, ch):
        if q == len(p):
            q = f[q]
        while q and p[q] != ch:
            q = f[q]
        return q + 1 if p and p[q] == ch else 0

    return Lang(0, step, lambda q: q == len(p), set(p))


def contains(p):
    L = ends(p)
    return Lang(0, lambda q, ch: q if q == len(p) else L.step(q, ch), lambda q: q == len(p), set(p))


def every(pred, empty=False):
    return Lang(0, lambda q, ch: -1 if q < 0 or not pred(ch) else 1, lambda q: q == 1 or (empty and q == 0), ())


def canon(rows):
    """a canonical automaton of regexlang"""
    import bisect

    tabs = [([c for c, _ in tr], [t for _, t in tr]) for _, tr in rows]

    def step(q, ch):
        cs, ts = tabs[q]
        return ts[bisect.bisect_right(cs, ord(ch)) - 1]

    cuts = set()
    for cs, _ in tabs:
        for c in cs:
            for d in (c - 1, c):
                if 0 <= d < 128:
                    cuts.add(chr(d))
    return Lang(0, step, lambda q: rows[q][0], cuts)


_DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def integer(base):
    """the texts int(text, base) takes (with ASCII digits)"""
    def digs(b):
        return "[" + "".join(c + c.upper() if c.isalpha() else c for c in _DIG[:b]) + "]"

    def num(b):
        return digs(b) + "(?:_?" + digs(b) + ")*"

    pre = {2: "[bB]", 8: "[oO]", 16: "[xX]"}
    if base == 0:
        body = "|".join(f"0{pre[b]}_?{num(b)}" for b in pre) + "|0(?:_?0)*|[1-9](?:_?[0-9])*"
    elif base in pre:
        body = f"(?:0{pre[base]}_?)?{num(base)}"
    elif 2 <= base <= 36:
        body = num(base)
    else:
        raise Give()
    from .regexlang import language

    l = language(r"[ \t\n\r\x0b\x0c]*[-+]?(?:" + body + r")[ \t\n\r\x0b\x0c]*", "fullmatch")
    if l is None:
        raise Give()
    return canon(l)


def negate(L):
    return Lang(L.start, L.step, lambda q: not L.acc(q), L.chars)


def length(pred, cap):
    return Lang(0, lambda q, ch: min(q + 1, cap), pred, ())


# ---- preimages -----------------------------------------------------------------------------------------------------


def pre_map(L, f, extra=()):
    """the text before every character was mapped (to a text)"""
    chars = set(extra)
    for c in set(L.chars):
        chars |= {c, c.lower()[:1], c.upper()[:1]}
    return Lang(L.start, lambda q, ch: run(L, f(ch), q), L.acc, chars)


def pre_strip(L, cs, left=True, right=True):
    def step(q, ch):
        k, s, ok = q
        if k == 0 and left and ch in cs:
            return q
        s2 = L.step(s, ch)
        if right and ch in cs:
            return (1, s2, ok)
        return (1, s2, L.acc(s2))

    return Lang((0, L.start, L.acc(L.start)), step, lambda q: q[2], set(L.chars) | set(cs))


def pre_replace(L, old, new):
    if not old:
        raise Give()
    f = _kmp(old)

    def step(q, ch):
        s, k = q
        while k and old[k] != ch:
            j = f[k]
            s = run(L, old[:k - j], s)
            k = j
        if old[k] == ch:
            k += 1
        else:
            s = L.step(s, ch)
        if k == len(old):
            return (run(L, new, s), 0)
        return (s, k)

    return Lang((L.start, 0), step, lambda q: L.acc(run(L, old[:q[1]], q[0])), set(L.chars) | set(old))


def pre_runs(L, inset, new):
    """every longest run of certain characters was replaced"""
    def step(q, ch):
        s, r = q
        if inset(ch):
            return (s, True) if r else (run(L, new, s), True)
        return (L.step(s, ch), False)

    return Lang((L.start, False), step, lambda q: L.acc(q[0]), set(L.chars))


def pre_cat(L, a, b):
    return Lang(run(L, a), L.step, lambda q: L.acc(run(L, b, q)), set(L.chars) | set(a) | set(b))


def pre_slice(L, lo, hi):
    if lo is not None and lo < 0:
        if hi is not None or lo < -6:
            raise Give()
        n = -lo
        return Lang("", lambda q, ch: (q + ch)[-n:], lambda q: L.acc(run(L, q)), L.chars)
    lo = lo or 0
    if lo > 20 or (hi is not None and (hi > 40 or hi < -6)):
        raise Give()
    if hi is None or hi >= 0:
        def step(q, ch):
            n, s = q
            if n >= lo and (hi is None or n < hi):
                s = L.step(s, ch)
            return (min(n + 1, max(lo, hi or 0)), s)

        return Lang((0, L.start), step, lambda q: L.acc(q[1]), L.chars)

    def step2(q, ch):
        n, s, buf = q
        buf += ch
        if len(buf) > -hi:
            if n >= lo:
                s = L.step(s, buf[0])
            n, buf = min(n + 1, lo), buf[1:]
        return (n, s, buf)

    return Lang((0, L.start, ""), step2, lambda q: L.acc(q[1]), L.chars)


def pre_part(L, sep, i):
    """the i-th part of the text split at a character; no text of that language has too few parts"""
    if len(sep) != 1 or not 0 <= i <= 4:
        raise Give()

    def step(q, ch):
        n, s = q
        if ch == sep:
            return (min(n + 1, i + 1), s)
        return (n, L.step(s, ch)) if n == i else q

    return Lang((0, L.start), step, lambda q: q[0] >= i and L.acc(q[1]), set(L.chars) | {sep})


def pre_count(pred, sep, cap):
    return Lang(1, lambda q, ch: min(q + 1, cap) if ch == sep else q, pred, {sep})


# ---- terms ---------------------------------------------------------------------------------------------------------


def _cstr(x):
    return isinstance(x, T) and is_const(x) and isinstance(cval(x), str)


def _cint(x):
    return isinstance(x, T) and is_const(x) and (cval(x) is None or isinstance(cval(x), int) and not isinstance(cval(x), bool))


_LETTER = {"lower": str.lower, "casefold": str.casefold, "upper": str.upper, "swapcase": str.swapcase}


def _class(pattern):
    """(characters, repeated) of a pattern that is one character class, maybe repeated"""
    from .regexlang import sp, sc, _set, Unsupported

    try:
        tree = list(sp.parse(pattern))
        rep = False
        if len(tree) == 1 and tree[0][0] is sc.MAX_REPEAT and tree[0][1][0] == 1 and tree[0][1][1] is sc.MAXREPEAT:
            rep, tree = True, list(tree[0][1][2])
        if len(tree) != 1:
            return None
        rs = _set(tree[0][0], tree[0][1], 0)
    except (re.error, Unsupported):
        return None
    return (lambda ch: any(a <= ord(ch) <= b for a, b in rs)), rep


def peel(t):
    """(inner text, preimage of a language, the function itself) of the outermost step of a text term, or None"""
    o, a = t.op, t.args
    if o in ("lower", "upper"):
        f = _LETTER[o]
        return a[0], lambda L: pre_map(L, f), f
    if o == "strip":
        return a[0], lambda L: pre_strip(L, WS), str.strip
    if o == "str" and len(a) == 1 and isinstance(a[0], T) and tyof(a[0]) == T_STR:
        return a[0], lambda L: L, lambda s: s
    if o == "strm" and all(_cstr(x) or _cint(x) for x in a[2]):
        n, x, c = a[0], a[1], [cval(y) for y in a[2]]
        f = lambda s: getattr(s, n)(*c)
        if n in _LETTER and not c:
            return x, lambda L: pre_map(L, f), f
        if n in ("strip", "lstrip", "rstrip") and len(c) <= 1:
            cs = WS if not c or c[0] is None else c[0]
            return x, lambda L: pre_strip(L, cs, n != "rstrip", n != "lstrip"), f
        if n == "replace" and len(c) == 2 and c[0]:
            return x, lambda L: pre_replace(L, *c), f
        if n == "removeprefix" and len(c) == 1:
            return x, lambda L: _pre_prefix(L, c[0]), f
        return None
    if o == "re" and a[0] == "sub" and len(a[1]) == 3 and _cstr(a[1][0]) and _cstr(a[1][1]) and "\\" not in cval(a[1][1]):
        k = _class(cval(a[1][0]))
        if k is None:
            return None
        new, p = cval(a[1][1]), cval(a[1][0])
        f = lambda s: re.sub(p, new, s)
        if k[1]:
            return a[1][2], lambda L: pre_runs(L, k[0], new), f
        return a[1][2], lambda L: pre_map(L, lambda ch: new if k[0](ch) else ch), f
    if o == "cat":
        parts = [x for x in a]
        i = [n for n, x in enumerate(parts) if not _cstr(x)]
        if len(i) == 1 and isinstance(parts[i[0]], T) and tyof(parts[i[0]]) == T_STR:
            p = "".join(cval(x) for x in parts[:i[0]])
            q = "".join(cval(x) for x in parts[i[0] + 1:])
            return parts[i[0]], lambda L: pre_cat(L, p, q), lambda s: p + s + q
        return None
    if o == "slice" and len(a) == 4 and _cint(a[1]) and _cint(a[2]) and cval(a[3]) in (None, 1) and tyof(a[0]) in (T_STR, core.opt(T_STR)):
        lo, hi = cval(a[1]), cval(a[2])
        return a[0], lambda L: pre_slice(L, lo, hi), lambda s: s[lo:hi]
    if o == "item" and isinstance(a[0], T) and a[0].op == "split":
        i = a[1] if isinstance(a[1], int) else cval(a[1]) if _cint(a[1]) else None
        s = a[0]
        if i is not None and i >= 0 and s.args[0] == "split" and len(s.args[2]) == 1 and _cstr(s.args[2][0]) and len(cval(s.args[2][0])) == 1:
            sep = cval(s.args[2][0])
            return s.args[1], lambda L: pre_part(L, sep, i), lambda x: x.split(sep)[i]
    return None


def _pre_prefix(L, p):
    n = len(p)

    def step(q, ch):
        k, s = q
        if k < 0:
            return (-1, L.step(s, ch))
        if k < n and p[k] == ch:
            return (k + 1, s)
        if k == n:
            return (-1, L.step(s, ch))
        return (-1, L.step(run(L, p[:k], s), ch))

    return Lang((0, L.start), step, lambda q: L.acc(q[1] if q[0] < 0 or q[0] == n else run(L, p[:q[0]], q[1])), set(L.chars) | set(p))


def chain(t):
    """(root, preimages from the root outwards)"""
    ops = []
    while isinstance(t, T):
        p = peel(t)
        if p is None:
            break
        ops.append(p)
        t = p[0]
    return t, ops


def _texty(t):
    k = tyof(t)
    return k is not None and ("str",) in k and all(x in (("str",), ("none",)) for x in k)


def _fixed(t):
    """texts a step leaves as they are: a language over the inner text"""
    o, a = t.op, t.args
    n = o if o != "strm" else a[0]
    if n in ("strip", "lstrip", "rstrip"):
        cs = WS if o == "strip" or not a[2] or cval(a[2][0]) is None else cval(a[2][0])
        l, r = n != "rstrip", n != "lstrip"

        def step(q, ch):
            first, ok, _ = q
            return (False, ok and not (first and l and ch in cs), ch in cs)

        return Lang((True, True, False), step, lambda q: q[1] and not (r and q[2]), set(cs))
    if n in _LETTER:
        return every(lambda ch: _LETTER[n](ch) == ch, True)
    if n == "replace" and cval(a[2][0]) != cval(a[2][1]):
        return negate(contains(cval(a[2][0])))
    return None


def _keeps(n, t, x):
    """texts x that start (end) with what stripping leaves of them, or None when t is no stripped x"""
    st = _outer(t, x) if isinstance(t, T) and isinstance(x, T) else None
    if not st or len(st) != 1:
        return None
    k = t.op if t.op != "strm" else t.args[0]
    if k not in ("strip", "lstrip", "rstrip"):
        return None
    cs = WS if t.op == "strip" or not t.args[2] or cval(t.args[2][0]) is None else cval(t.args[2][0])
    if k == ("rstrip" if n == "startswith" else "lstrip"):
        return negate(const([]))

    def step(q, ch):
        first, lead, _, blank = q
        return (False, lead or (first and ch in cs), ch in cs, blank and ch in cs)

    return Lang((True, False, False, True), step, lambda q: q[3] or not (q[1] if n == "startswith" else q[2]), set(cs))


def _outer(t, x):
    """the steps of t outside x, when t is made from x"""
    ops = []
    while isinstance(t, T) and t is not x:
        p = peel(t)
        if p is None:
            return None
        ops.append((t, p))
        t = p[0]
    return ops if t is x else None


def _len_rel(o, t):
    """len(x) against len(strip(x)): ('shorter by at least', k, strip term) or None"""
    k, d = aff_parts(t)
    if len(d) != 2 or any(x.op != "len" for x in d):
        return None
    (x, c), (y, e) = d.items()
    if {c, e} != {1, -1}:
        return None
    if c == -1:
        x, y = y, x
    u, v = x.args[0], y.args[0]
    return k, u, v


_lang: dict = {}


def lang(a):
    """(text term, language of its values under which the atom is true, values for which it has a meaning) or None"""
    o, g = a.op, a.args
    if o == "eq":
        if _cstr(g[1]):
            return g[0], const([cval(g[1])])
        for x, y in (g, g[::-1]):
            st = _outer(x, y) if isinstance(x, T) and isinstance(y, T) else None
            if st and len(st) == 1:
                L = _fixed(x)
                if L is not None:
                    return y, L
        return None
    if o in ("tru", "nonempty") and isinstance(g[0], T):
        t = g[0]
        if t.op == "strb" and len(t.args) == 3 and t.args[0] in ("startswith", "endswith") and len(t.args[2]) == 1 and not _cstr(t.args[2][0]):
            L = _keeps(t.args[0], t.args[2][0], t.args[1])
            return (t.args[1], L) if L is not None else None
        if t.op == "strb" and len(t.args) == 3 and all(_cstr(x) for x in t.args[2]):
            n, x, c = t.args[0], t.args[1], [cval(y) for y in t.args[2]]
            if n == "startswith" and len(c) == 1:
                return x, starts(c[0])
            if n == "endswith" and len(c) == 1:
                return x, ends(c[0])
            if n in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace") and not c:
                L = every(lambda ch: getattr(ch, n)())
                # a digit to isdigit that int() refuses
                return x, (Lang(L.start, L.step, L.acc, {"\u00b2"}) if n in ("isdigit", "isnumeric") else L)
            return None
        if _texty(t) and t.op != "c":
            return t, length(lambda q: q > 0, 1)
        return None
    if o == "in" and len(g) == 2:
        if _cstr(g[0]) and isinstance(g[1], T) and _texty(g[1]):
            return (g[1], contains(cval(g[0]))) if cval(g[0]) else None
        if isinstance(g[1], T) and g[1].op == "c" and isinstance(cval(g[1]), (tuple, list)) and all(isinstance(x, str) for x in cval(g[1])):
            return g[0], const(cval(g[1]))
        return None
    if o == "none" and isinstance(g[0], T):
        m = g[0]
        if m.op == "rematchs":
            m = m.args[0]
        if m.op == "rematch":
            from .models import _langs

            for rows, v in _langs.items():
                if v[0] == m.args[0] and rows != ("invalid",):
                    return m.args[1], negate(canon(rows))
        return None
    if o == "raises" and g[0] == "ValueError" and isinstance(g[1], T) and g[1].op == "int" and len(g[1].args) == 2:
        b = g[1].args[1]
        if _cint(b) and cval(b) is not None and isinstance(g[1].args[0], T):
            return g[1].args[0], negate(integer(cval(b)))
        return None
    if o in ("le0", "eq0"):
        k, d = aff_parts(g[0])
        if len(d) == 1:
            (x, c), = d.items()
            if x.op != "len":
                return None
            t = x.args[0]
            cap = abs(k) // abs(c) + 2
            if cap > 60:
                return None
            pred = (lambda q: c * q + k <= 0) if o == "le0" else (lambda q: c * q + k == 0)
            if t.op == "split" and t.args[0] == "split" and len(t.args[2]) == 1 and _cstr(t.args[2][0]) and len(cval(t.args[2][0])) == 1:
                return t.args[1], pre_count(pred, cval(t.args[2][0]), cap + 1)
            if _texty(t):
                return t, length(pred, cap)
            return None
        r = _len_rel(o, g[0])
        if r:
            k, u, v = r  # len(u) - len(v) + k
            for x, y, s in ((u, v, -1), (v, u, 1)):  # x made from y: len(x) = len(y) - cut
                st = _outer(x, y)
                if not st or len(st) != 1:
                    continue
                n = x.op if x.op != "strm" else x.args[0]
                if n not in ("strip", "lstrip", "rstrip"):
                    continue
                F = _fixed(x)
                # len(u)-len(v) = s*cut
                if o == "eq0":
                    if k == 0:
                        return y, F
                    if s * k > 0:
                        return y, const([])
                    return None
                if s == 1:  # cut + k <= 0
                    if k > 0:
                        return y, const([])
                    return (y, F) if k == 0 else None
                if k <= 0:  # -cut + k <= 0
                    return y, negate(const([]))
                return (y, negate(F)) if k == 1 else None
    return None


_info: dict = {}
STRING_OPS = {"lower", "upper", "strip", "strm", "strb", "stri", "split", "slice", "part", "re", "rematch", "rematchs"}


def info(a):
    """(root, {sign: language}) when the atom is a condition on one text"""
    r = _info.get(a, 0)
    if r == 0:
        r = None
        try:
            l = lang(a)
            if l is not None:
                root, ops = chain(l[0])
                if isinstance(root, T) and not is_const(root):
                    out = {}
                    for v in (True, False):
                        L = l[1] if v else negate(l[1])
                        for _, pre, _f in ops:
                            L = pre(L)
                        out[v] = L
                    r = (root, out)
        except Give:
            r = None
        _info[a] = r
    return r


_res: dict = {}


def explore(lits, want=1):
    """some of the texts that satisfy the literals, shortest first; None when too many states were needed"""
    ls = [info(a)[1][v] for a, v in lits]
    chars = set(BASE)
    for L in ls:
        chars |= L.chars
    chars = sorted(c for c in chars if len(c) == 1)
    start = tuple(L.start for L in ls)
    seen = {start: ""}
    todo, out = [start], []
    i = 0
    while i < len(todo):
        q = todo[i]
        i += 1
        if all(L.acc(x) for L, x in zip(ls, q)):
            out.append(seen[q])
            if len(out) >= want:
                return out
        w = seen[q]
        for c in chars:
            n = tuple(L.step(x, c) for L, x in zip(ls, q))
            if n not in seen:
                if len(seen) > MAXSTATES:
                    return None if not out else out
                seen[n] = w + c
                todo.append(n)
    return out


def empty(lits):
    key = frozenset(lits)
    r = _res.get(key)
    if r is None:
        r = _res[key] = explore(sorted(lits, key=lambda x: x[0].uid)) == []
    return r


def _trivial(a, v):
    return a.op == "eq" and not v


def _real(a, v, r):
    """the literal shows that there is a text"""
    if a.op in ("eq", "tru", "nonempty"):
        return v or (a.op == "eq" and a.args[0] is not r) or (a.op == "tru" and a.args[0] is not r)
    return True


def refuted(cube, find, none):
    """no text satisfies the conditions of the cube on it"""
    groups: dict = {}
    for a, v in cube.items():
        if a.op not in ("eq", "tru", "nonempty", "in", "none", "raises", "le0", "eq0"):
            continue
        i = info(a)
        if i is None:
            continue
        groups.setdefault(find(i[0]), []).append((a, v))
    for r, ls in groups.items():
        if none.get(r) is True:
            continue
        if is_const(r):
            if isinstance(cval(r), str):
                for a, v in ls:
                    L = info(a)[1][v]
                    if not L.acc(run(L, cval(r))):
                        return True
            continue
        if all(_trivial(a, v) for a, v in ls):
            continue
        if len(ls) == 1 and ls[0][0].op in ("eq", "in", "raises"):
            continue
        if none.get(r) is not False and ("none",) in (tyof(r) or (("none",),)) and not any(_real(a, v, r) for a, v in ls):
            continue
        if empty(ls):
            return True
    return False


# ---- whether a witness can be believed ------------------------------------------------------------------------------


class NoValue(Exception):
    pass


def value(t, env):
    """the value of a text or number computed from the given texts"""
    if t in env:
        return env[t]
    if is_const(t):
        return cval(t)
    p = peel(t)
    if p is not None:
        return p[2](value(p[0], env))
    if t.op == "int" and len(t.args) == 2:
        return int(value(t.args[0], env), value(t.args[1], env))
    if t.op == "len":
        return len(value(t.args[0], env))
    if t.op == "ord":
        return ord(value(t.args[0], env))
    if t.op == "chr":
        return chr(value(t.args[0], env))
    if t.op in ("elem", "nth", "attr", "sym") and None in env and t.ty and all(x[0] in ("int", "none") for x in t.ty):
        env["used"].add(t)
        return env[None]  # any number will do
    if t.op == "aff":
        k, d = aff_parts(t)
        return k + sum(c * value(x, env) for x, c in d.items())
    if t.op == "split" and t.args[0] in ("split", "rsplit", "splitlines"):
        return getattr(value(t.args[1], env), t.args[0])(*[value(x, env) for x in t.args[2]])
    if t.op == "item":
        i = t.args[1] if isinstance(t.args[1], int) else value(t.args[1], env)
        return value(t.args[0], env)[i]
    if t.op in ("strm", "strb", "stri"):
        r = getattr(value(t.args[1], env), t.args[0])(*[value(x, env) for x in t.args[2]])
        return r
    if t.op == "part":
        return value(t.args[0], env)[t.args[1]]
    if t.op in ("first", "last"):
        return value(t.args[0], env)[0 if t.op == "first" else -1]
    if t.op == "getitem" and len(t.args) == 2:
        return value(t.args[0], env)[t.args[1] if isinstance(t.args[1], int) else value(t.args[1], env)]
    if t.op == "range":
        return list(range(*[value(x, env) for x in t.args]))
    if t.op == "cat":
        return "".join(str(value(x, env)) for x in t.args)
    if t.op == "str" and len(t.args) == 1:
        return str(value(t.args[0], env))
    if t.op == "re":
        return getattr(re, t.args[0])(*[value(x, env) for x in t.args[1]])
    raise NoValue()


def holds(a, env):
    o, g = a.op, a.args
    try:
        if o == "eq":
            return value(g[0], env) == value(g[1], env)
        if o == "none":
            return value(g[0], env) is None
        if o in ("tru", "nonempty"):
            return bool(value(g[0], env))
        if o == "in":
            return value(g[0], env) in value(g[1], env)
        if o == "le0":
            return value(g[0], env) <= 0
        if o == "eq0":
            return value(g[0], env) == 0
        if o == "lt":
            return value(g[0], env) < value(g[1], env)
        if o == "raises":
            try:
                value(g[1], env)
                return False
            except ValueError:
                return True
    except (ValueError, TypeError, AttributeError, IndexError, re.error) as e:
        raise NoValue() from e
    raise NoValue()


_roots: dict = {}


_SPELLING = {"replace", "strip", "lstrip", "rstrip", "lower", "upper"}  # ways to write the same numbers


def roots(a):
    """texts (and lists of texts) the atom looks into, each with whether it looks at more than its number"""
    r = _roots.get(a)
    if r is not None:
        return r
    out: dict = {}
    seen = set()

    def go(t, inside):
        if isinstance(t, tuple):
            for x in t:
                go(x, inside)
            return
        if not isinstance(t, T) or (t, inside) in seen or len(seen) > 400:
            return
        seen.add((t, inside))
        p = peel(t)
        if p is not None:
            return go(p[0], "number" if inside == "number" and (t.op in ("strip", "lower", "upper") or t.op == "strm" and t.args[0] in _SPELLING) else "text")
        if t.op == "c":
            return
        if t.op in STRING_OPS:
            return go(t.args, "text")
        if t.op in ("int", "float"):
            return go(t.args[0], "number")
        if t.op == "item" and isinstance(t.args[0], T) and t.args[0].op in ("split", "re"):
            return go(t.args[0], "text")
        if t.op == "ord":
            return go(t.args[0], "text")
        if t.op == "range":
            return go(t.args, inside)
        if t.op in ("first", "last", "getitem") and isinstance(t.args[0], T) and _texty(t.args[0]):
            return go(t.args[0], "text")
        if t.op == "len":
            if isinstance(t.args[0], T) and (t.args[0].op in STRING_OPS or _texty(t.args[0])):
                return go(t.args[0], "text")
            return
        if t.op == "aff":
            for x in aff_parts(t)[1]:
                go(x, inside)
            return
        if inside:
            out.setdefault(t, set()).add(inside)

    o = a.op
    if o == "raises" and a.args[0] == "ValueError":
        go(a.args[1].args[0] if isinstance(a.args[1], T) and a.args[1].op == "int" else (), "text")
    elif o in ("le0", "eq0"):
        go(a.args[0], None)
    elif o in ("eq", "tru", "nonempty", "lt"):
        for x in a.args:
            if isinstance(x, T):
                go(x, "text" if (o == "eq" and any(_cstr(y) for y in a.args)) or o in ("tru", "nonempty") and _texty(x) else None)
    elif o == "none":
        go(a.args[0] if isinstance(a.args[0], T) and a.args[0].op in STRING_OPS else (), None)
    elif o == "in":
        go(a.args[1], "text" if _cstr(a.args[0]) else None)
        go(a.args[0], "text" if isinstance(a.args[1], T) and a.args[1].op == "c" else None)
    r = _roots[a] = {t: frozenset(k) for t, k in out.items()}
    return r


def _ints(a):
    """number readings in an atom: (base, text)"""
    out = set()
    stack = list(a.args)
    n = 0
    while stack and n < 300:
        t = stack.pop()
        n += 1
        if isinstance(t, tuple):
            stack += t
        elif isinstance(t, T):
            if t.op == "int" and len(t.args) == 2:
                out.add(t)
            elif t.op != "b":
                stack += t.args
    return out


def trusted(cube):
    """some text can be seen to satisfy what the cube says of it, or there is only one thing said of it"""
    by: dict = {}
    for a, v in cube.items():
        if a.op in ("isa", "exists", "path"):
            continue
        for r, kinds in roots(a).items():
            by.setdefault(r, []).append((a, v, kinds))
    for r, ls in by.items():
        if cube.get(core.mk("none", r)) is True:
            continue
        free = [x for x in ls if x[2] == {"number"} and x[0].op != "raises"]
        if free and len({t for x in free for t in _ints(x[0]) if r in roots(t)}) <= 1:
            rest = [x for x in ls if x not in free]
            # with nothing else said of the text it can be any number; otherwise what is said of the number alone has to fit the text
            ls = rest and rest + [x for x in free if _evaluable(x[0], r)]
        if not ls:
            continue
        sup = [(a, v) for a, v, _ in ls if info(a) is not None and info(a)[0] is r]
        wild = [(a, v) for a, v, _ in ls if not (info(a) is not None and info(a)[0] is r)]
        if not wild and not _calls_disagree(cube, r):
            continue
        ev = []
        for a, v in wild:
            try:
                holds(a, {r: "x", None: 1, "used": set()})
                ev.append((a, v))
            except NoValue:
                if _evaluable(a, r):
                    ev.append((a, v))
        if len(ls) == 1 and wild and not ev:
            continue
        if len(ev) < len(wild):
            if len(ls) > 1:
                return False
            continue
        ok = False
        for s in samples(sup, wild):
            for n in (1, 2, 0, 3):
                env = {r: s, None: n, "used": set()}
                try:
                    if all(holds(a, env) == v for a, v in wild) and _others(cube, wild, env) and _same_calls(cube, r, env):
                        ok = True
                        break
                except NoValue:
                    continue
                if not env["used"]:
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def _others(cube, wild, env):
    """what else the cube says of the numbers that were chosen freely"""
    done = {a for a, _ in wild}
    used = set(env["used"])
    for a, v in cube.items():
        if a in done or a.op not in ("le0", "eq0", "eq", "none", "tru", "lt", "in"):
            continue
        if any(x in used for x in _parts(a)) and holds(a, env) != v:
            return False
    return True


def _calls_disagree(cube, r):
    said: dict = {}
    for a, v in cube.items():
        ps = _parts(a)
        if r in ps:
            for t in ps:
                if t.op == "app":
                    said.setdefault((a.op, t.args[0]), set()).add(v)
                    if a.op in ("eq", "eq0") and not v:
                        said.setdefault((None, t.args[0]), set()).add(t)
    return any(len(x) > 1 for x in said.values())


def _same_calls(cube, r, env):
    """what the cube says of calls given the same text, spelled in different ways, agrees"""
    by: dict = {}
    for a, v in cube.items():
        fs = frozenset(t.args[0] for t in _parts(a) if t.op == "app")
        if fs:
            by.setdefault((a.op, fs), []).append((a, v))
    for (o, _), ls in by.items():
        for a, v in ls:
            if o == "eq" and not v and _with(a.args[0], r, env) == _with(a.args[1], r, env):
                return False
            if o == "eq0" and not v:
                k, d = aff_parts(a.args[0])
                left: dict = {}
                for x, c in d.items():
                    x = _with(x, r, env)
                    left[x] = left.get(x, 0) + c
                if k == 0 and not any(left.values()):
                    return False
        if len({v for _, v in ls}) > 1:
            k = {}
            for a, v in ls:
                if k.setdefault(_with(a, r, env), v) != v:
                    return False
    return True


def _with(t, r, env, n=0):
    """the term with the texts computed from r replaced by what they are"""
    if isinstance(t, tuple):
        return tuple(_with(x, r, env, n) for x in t)
    if not isinstance(t, T) or n > 60:
        return t
    if t is r or peel(t) is not None:
        try:
            return "text", value(t, env)
        except (NoValue, ValueError, TypeError, AttributeError, IndexError):
            pass
    if t.op == "b":
        return "b", frozenset(_with(x, r, env, n + 1) for x in core.support(t.args[0]))
    return t.op, _with(t.args, r, env, n + 1)


def _parts(a):
    seen, stack = set(), [a]
    while stack and len(seen) < 400:
        t = stack.pop()
        if isinstance(t, tuple):
            stack += t
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            if t.op != "b":
                stack += t.args
    return seen


def _evaluable(a, r):
    for s in ("1", "0x1", "a-b", "1,2", "", " a "):
        try:
            holds(a, {r: s, None: 1, "used": set()})
            return True
        except NoValue:
            pass
    return False


_samp: dict = {}


def samples(sup, wild):
    key = (frozenset(sup), frozenset(a for a, _ in wild))
    r = _samp.get(key)
    if r is not None:
        return r
    cand = []
    if sup:
        cand += explore(sorted(sup, key=lambda x: x[0].uid), 60) or []
    pool = ["", "0", "1", "7", "10", "010", "0x10", "0X1f", "0b11", "#11", "#1x", "a", "A", "aB", " a ", "a ", " 1", "true", "TRUE", "1-3", "3-1", "A-C", "A-A", "2-2", "a,b", "1,2,3", "a,\tb",
            "a, b", "[0]", "x%s", "x[%s]", "1_0", "-1", "+1", "0o7", "ff", "xx", "0xzz", "_", "1x0", "12", "9"]
    words = set()
    for a, _ in list(sup) + list(wild):
        stack = list(a.args)
        n = 0
        while stack and n < 300:
            t = stack.pop()
            n += 1
            if isinstance(t, tuple):
                stack += t
            elif isinstance(t, T):
                if _cstr(t):
                    words.add(cval(t))
                elif t.op not in ("b", "c"):
                    stack += [x for x in t.args if isinstance(x, (T, tuple))]
            elif isinstance(t, str) and len(t) < 12:
                pass
    for w in sorted(words):
        pool += [w, w.upper(), w.lower(), w + "1", "1" + w, w + "a", "a" + w + "b", " " + w, w + " ", "0" + w + "1", w + w, w + "a" + w]
    for s in dict.fromkeys(pool):
        if all((lambda L: L.acc(run(L, s)))(info(a)[1][v]) for a, v in sup):
            cand.append(s)
    r = _samp[key] = list(dict.fromkeys(cand))
    return r
