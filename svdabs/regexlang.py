"""Language of a regular expression literal, as a canonical minimal automaton: two literals are compared as languages,
not as text.  Nothing is matched here; the literal is parsed and turned into an automaton."""
from __future__ import annotations

import re
from functools import lru_cache

try:
    from re import _constants as sc
    from re import _parser as sp
except ImportError:  # Python < 3.11
    import sre_constants as sc
    import sre_parse as sp

MAXC = 0x10FFFF


class Unsupported(Exception):
    pass


def _neg(rs):
    out, p = [], 0
    for a, b in _norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return out


def _norm(rs):
    out: list = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


DIGIT = [(48, 57)]
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)]
WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
CAT = {"CATEGORY_DIGIT": DIGIT, "CATEGORY_NOT_DIGIT": _neg(DIGIT), "CATEGORY_SPACE": SPACE, "CATEGORY_NOT_SPACE": _neg(SPACE),
       "CATEGORY_WORD": WORD, "CATEGORY_NOT_WORD": _neg(WORD)}


def _set(op, arg, flags):
    if op is sc.LITERAL:
        rs = [(arg, arg)]
    elif op is sc.NOT_LITERAL:
        rs = _neg([(arg, arg)])
    elif op is sc.ANY:
        rs = [(0, MAXC)] if flags & re.S else _neg([(10, 10)])
    elif op is sc.IN:
        rs, neg = [], False
        for o, a in arg:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                rs.append((a, a))
            elif o is sc.RANGE:
                rs.append((a[0], a[1]))
            elif o is sc.CATEGORY:
                rs += CAT[str(a)]
            else:
                raise Unsupported(o)
        rs = _neg(rs) if neg else rs
    else:
        raise Unsupported(op)
    if flags & re.I:
        ex = []
        for a, b in rs:
            if b - a > 400:
                continue
            for c in range(a, b + 1):
                for d in (chr(c).lower(), chr(c).upper()):
                    if len(d) == 1:
                        ex.append((ord(d), ord(d)))
        rs = rs + ex
    return tuple(_norm(rs))


class _N:
    def __init__(self):
        self.eps: dict = {}
        self.tr: dict = {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)


def _build(nfa, items, s, flags, first, last, endst):
    """connect state s through items, return the end state"""
    items = list(items)
    for i, (op, arg) in enumerate(items):
        f, l = first and i == 0, last and i == len(items) - 1
        if op is sc.SUBPATTERN:
            g, add, rem, sub = arg
            s = _build(nfa, sub, s, (flags | add) & ~rem, f, l, endst)
        elif op is sc.BRANCH:
            t = nfa.new()
            for alt in arg[1]:
                a = nfa.new()
                nfa.e(s, a)
                nfa.e(_build(nfa, alt, a, flags, f, l, endst), t)
            s = t
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = arg
            if lo > 60 or (hi is not sc.MAXREPEAT and hi > 60):
                raise Unsupported("repeat")
            for _ in range(lo):
                s = _build(nfa, sub, s, flags, False, False, endst)
            if hi is sc.MAXREPEAT:
                a = nfa.new()
                nfa.e(s, a)
                nfa.e(_build(nfa, sub, a, flags, False, False, endst), a)
                t = nfa.new()
                nfa.e(a, t)
                s = t
            else:
                t = nfa.new()
                nfa.e(s, t)
                for _ in range(hi - lo):
                    s = _build(nfa, sub, s, flags, False, False, endst)
                    nfa.e(s, t)
                s = t
        elif op is sc.AT:
            n = str(arg)
            if n in ("AT_BEGINNING", "AT_BEGINNING_STRING") and f:
                continue
            if n in ("AT_END", "AT_END_STRING") and l:
                if n == "AT_END":
                    t = nfa.new()
                    nfa.tr.setdefault(s, []).append((((10, 10),), t))
                    nfa.e(t, endst)
                nfa.e(s, endst)
                s = nfa.new()  # dead
                continue
            raise Unsupported(n)
        else:
            t = nfa.new()
            nfa.tr.setdefault(s, []).append((_set(op, arg, flags), t))
            s = t
    return s


@lru_cache(maxsize=None)
def language(pattern: str, mode: str = "match", flags: int = 0):
    """canonical automaton of the strings on which re.<mode>(pattern, s) finds something; None when unsupported"""
    try:
        tree = sp.parse(pattern, flags)
    except re.error:
        return ("invalid",)
    fl = tree.state.flags
    if fl & re.M:
        return None
    anchored = mode in ("match", "fullmatch")
    nfa = _N()
    try:
        s0 = nfa.new()
        end = nfa.new()  # at the end of the text
        st = s0
        items = list(tree)
        if not anchored:
            if items and items[0][0] is sc.AT:
                pass
            else:
                nfa.tr.setdefault(s0, []).append((((0, MAXC),), s0))
                st = nfa.new()
                nfa.e(s0, st)
        fin = _build(nfa, items, st, fl, True, True, end)
    except Unsupported:
        return None
    any_ = nfa.new()
    if mode == "fullmatch":
        nfa.e(fin, end)
    else:
        nfa.e(fin, any_)
        nfa.tr.setdefault(any_, []).append((((0, MAXC),), any_))
    return _canon(nfa, s0, {end, any_} if mode != "fullmatch" else {end})


def _canon(nfa, s0, finals):
    cuts = {0}
    for ts in nfa.tr.values():
        for rs, _ in ts:
            for a, b in rs:
                cuts.add(a)
                cuts.add(b + 1)
    cuts = sorted(c for c in cuts if c <= MAXC)

    def clo(ss):
        out, st = set(ss), list(ss)
        while st:
            for y in nfa.eps.get(st.pop(), ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    start = clo({s0})
    states, todo, delta = {start: 0}, [start], {}
    while todo:
        S = todo.pop()
        row = []
        for c in cuts:
            T = set()
            for s in S:
                for rs, t in nfa.tr.get(s, ()):
                    if any(a <= c <= b for a, b in rs):
                        T.add(t)
            T = clo(T)
            if T not in states:
                states[T] = len(states)
                todo.append(T)
                if len(states) > 600:
                    return None
            row.append(states[T])
        delta[states[S]] = row
    n = len(states)
    acc = {states[S]: bool(S & finals) for S in states}
    part = {q: int(acc[q]) for q in range(n)}
    while True:
        sig = {q: (part[q], tuple(part[x] for x in delta[q])) for q in range(n)}
        ids: dict = {}
        new = {q: ids.setdefault(sig[q], len(ids)) for q in range(n)}
        if len(ids) == len(set(part.values())):
            break
        part = new
    # canonical numbering from the start, intervals merged by target
    num, order, out = {part[0]: 0}, [0], []
    rep = {}
    for q in range(n):
        rep.setdefault(part[q], q)
    i = 0
    order = [part[0]]
    while i < len(order):
        q = rep[order[i]]
        i += 1
        row: list = []
        for c, x in zip(cuts, delta[q]):
            p = part[x]
            if p not in num:
                num[p] = len(num)
                order.append(p)
            if not row or row[-1][1] != num[p]:
                row.append((c, num[p]))
        out.append((acc[q], tuple(row)))
    return tuple(out)


@lru_cache(maxsize=None)
def shape(pattern: str, flags: int = 0):
    """the parsed literal with character classes in canonical form (capture groups and greed kept)"""
    try:
        tree = sp.parse(pattern, flags)
    except re.error:
        return None
    fl = tree.state.flags

    def go(items):
        out = []
        for op, arg in items:
            if op is sc.SUBPATTERN:
                out.append(("group", arg[0] is not None, go(arg[3])))
            elif op is sc.BRANCH:
                out.append(("alt", tuple(go(a) for a in arg[1])))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                out.append((str(op), arg[0], arg[1] if arg[1] is not sc.MAXREPEAT else -1, go(arg[2])))
            elif op is sc.AT:
                out.append(("at", str(arg)))
            else:
                out.append(("set", _set(op, arg, fl)))
        return tuple(out)

    try:
        return go(tree)
    except Unsupported:
        return None


def ngroups(pattern: str) -> int:
    try:
        return sp.parse(pattern).state.groups - 1
    except re.error:
        return 0
