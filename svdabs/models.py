"""Models of the built-ins and external libraries the analysed tree calls.

A model says what flows from the arguments into the result and which exceptions
may be raised; calls without a model become opaque values (never a verdict).
"""
from __future__ import annotations

import builtins as _bi
import codecs
import os
import posixpath

from . import theory
from .core import *  # noqa: F401,F403
from .core import aff_add, aff_parts
from .interp import Unreachable, cat, each, guard_item, joined_order, one, splat, str_of, val_of

PARSE_FNS = {"lxml.etree.parse", "lxml.etree.fromstring", "lxml.etree.XML"}
NUM_ERR = "ValueError"


def _frz(I, st, args):
    return tuple(I.freeze(a, st) for a in args)


def opaque_call(I, name, args, kwargs, st, fr, node, ty_=None):
    fa = _frz(I, st, args)
    fk = tuple((k, I.freeze(v, st)) for k, v in sorted(kwargs.items()))
    I.eff("extcall", st, (name, fa, fk), node, fr)
    if name.split(".")[-1] in I.traced:
        I.record(st, name.split(".")[-1], list(args) + [v for _, v in sorted(kwargs.items())])
    return mk("call", mk("ext", name), fa, fk, ty=ty_)


def is_exc_name(n):
    o = getattr(_bi, n, None)
    return isinstance(o, type) and issubclass(o, BaseException)


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------


def builtin(I, name, args, kwargs, st, fr, node):
    f = globals().get("b_" + name)
    if f is not None:
        return f(I, args, kwargs, st, fr, node)
    if is_exc_name(name):
        return mk("exc", name, *[I.freeze(a, st) for a in args])
    return opaque_call(I, name, args, kwargs, st, fr, node)


def b_isinstance(I, a, k, st, fr, node):
    return bval(I.isinst(a[0], a[1], st))


def b_issubclass(I, a, k, st, fr, node):
    def leaf(l):
        if l.op == "cls":
            r = FALSE
            for c in I.class_leaves(a[1], st):
                if c.op == "cls":
                    r = bor(r, TRUE if I.prog.subclass_of(I.prog.classes[l.args[0]], c.args[0]) else FALSE)
            return bval(r)
        if l.op == "typeof":
            return bval(I.isinst(l.args[0], a[1], st))
        return mk("call", mk("bi", "issubclass"), _frz(I, st, a), ty=T_BOOL)

    return vmap(leaf, a[0], st.pc)


def b_type(I, a, k, st, fr, node):
    def leaf(l):
        if l.op == "ref":
            h = st.heap[l]
            if h.kind == "inst":
                return mk("cls", h.cls.qual)
            return mk("bi", h.kind)
        if l.op == "enum":
            return mk("cls", l.args[0])
        if l.op == "c":
            return mk("bi", type(cval(l)).__name__)
        if l.ty is not None:
            rest = [x for x in l.ty]
            if len(rest) == 1 and rest[0][0] == "cls":
                subs = [c for c in I.prog.classes.values() if I.prog.subclass_of(c, rest[0][1]) and c.qual != rest[0][1]]
                if not subs:
                    return mk("cls", rest[0][1])
        return mk("typeof", l)

    return vmap(leaf, a[0], st.pc)


def _range_len(t):
    """number of integers a range yields, or None"""
    a = t.args
    lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else (None, None)
    if lo is None:
        return None
    n = aff_add(hi, lo, -1)
    return vite(le0(n), C(0), n)


def _item_count(I, it, st):
    """number of entries an item of a list contributes when its guard holds, or None"""
    if it.op == "one":
        return C(1)
    if it.op == "splat":
        return length(I, it.args[1], st)
    if it.op == "each":
        inner = it.args[3]
        if len(inner) == 1 and inner[0].op == "one" and inner[0].args[0].args[0] == TRUE:
            src = it.args[2]
            while src.op in ("sorted", "reversed"):
                src = src.args[0]
            return length(I, src, st)
        return mk("len", mk("lst", "list", (I.freeze_item(mk(it.op, bterm(TRUE), *it.args[1:]), st),), ty=T_LIST(None)), ty=T_INT)
    return None


def _items_count(I, items, st):
    if len(items) > 16:
        return None
    tot = C(0)
    for it in items:
        n = _item_count(I, it, st)
        if n is None:
            return None
        g = it.args[0].args[0]
        tot = vmap(lambda x, n=n, g=g: vmap(lambda y: aff_add(x, y), n if g == TRUE else vite(g, n, C(0))), tot)
        if len(alts(tot)) > 64:
            return None
    return tot


def length(I, l, st):
    if l.op == "ref":
        h = st.heap[l]
        if h.kind in ("list", "tuple", "dict", "xml") and all(i.op in ("one", "kv") and i.args[0].args[0] == TRUE for i in h.items) \
                and (h.kind != "dict"):
            return C(len(h.items))
        if h.kind in ("list", "tuple", "xml"):
            n = _items_count(I, h.items, st)
            if n is not None:
                return n
        if h.kind == "xml":
            return mk("len", mk("lst", "list", tuple(I.freeze_item(i, st) for i in h.items), ty=T_LIST(T_XML)), ty=T_INT)
        return mk("len", I.freeze(l, st), ty=T_INT)
    if l.op == "c" and isinstance(cval(l), (str, bytes)):
        return C(len(cval(l)))
    if l.op in ("sorted", "reversed"):
        return length(I, l.args[0], st)
    if l.op == "lst" and l.args[0] in ("list", "tuple"):
        n = _items_count(I, l.args[1], st)
        if n is not None:
            return n
    if l.op == "range":
        n = _range_len(l)
        if n is not None:
            return n
    if l.op == "cls":
        c = I.prog.classes.get(l.args[0])
        if c is not None and I.prog.is_enum(c):
            return C(len(I.prog.enum_members(c)))
    if l.ty == T_XML:
        return mk("len", mk("children", l, ty=T_LIST(T_XML)), ty=T_INT)
    return mk("len", l, ty=T_INT)


def b_len(I, a, k, st, fr, node):
    return vmap(lambda l: length(I, l, st), a[0], st.pc)


def b_int(I, a, k, st, fr, node):
    if not a:
        return C(0)
    base = a[1] if len(a) > 1 else k.get("base")
    if isinstance(base, G):
        return I.per_alt(lambda b: b_int(I, [a[0], b], {}, st, fr, node), base, st)

    def leaf(l):
        b = base
        if is_const(l) and (b is None or is_const(b)):
            try:
                return C(int(cval(l)) if b is None else int(cval(l), cval(b)))
            except (ValueError, TypeError) as ex:
                I.maybe_raise(st, TRUE, type(ex).__name__, node, fr, (l,))
                return mk("bottom")
        t = tyof(l)
        if b is None and t is not None and t == T_INT:
            return l
        if b is None and t == T_BOOL:
            return G(((atom_bdd(mk("tru", l)), C(1)), (bnot(atom_bdd(mk("tru", l))), C(0))))
        fl = I.freeze(l, st)
        r = mk("int", fl, b if b is not None else C(10), ty=T_INT)
        I.maybe_raise(st, atom_bdd(mk("raises", "ValueError", r)), "ValueError", node, fr, (r,))
        return r

    return I.per_alt(leaf, a[0], st)


def b_float(I, a, k, st, fr, node):
    r = mk("float", I.freeze(a[0], st), ty=ty(("float",))) if a else C(0)
    I.maybe_raise(st, atom_bdd(mk("raises", "ValueError", r)), "ValueError", node, fr, (r,))
    return r


def b_str(I, a, k, st, fr, node):
    if not a:
        return C("")

    def leaf(l):
        if l.op == "ref" or l.op == "g":
            return mk("str", I.freeze(l, st), ty=T_STR)
        if l.op == "enum":
            c = I.prog.classes[l.args[0]]
            m = I.prog.find_method(c, "__str__")
            if m is not None:
                return I.call_func(m, [l], {}, st, fr, node)
        return str_of(l, I)

    if len(a) > 1:
        return mk("decode", I.freeze(a[0], st), codec(I.freeze(a[1], st)), ty=T_STR)
    return vmap(leaf, a[0], st.pc)


def b_bool(I, a, k, st, fr, node):
    return bval(I.truth(a[0], st)) if a else FALSE_T


def b_repr(I, a, k, st, fr, node):
    return mk("repr", I.freeze(a[0], st), ty=T_STR)


def b_hex(I, a, k, st, fr, node):
    return vmap(lambda l: C(hex(cval(l))) if is_const(l) and isinstance(cval(l), int) else mk("hex", l, ty=T_STR), a[0], st.pc)


def b_bin(I, a, k, st, fr, node):
    return vmap(lambda l: C(bin(cval(l))) if is_const(l) and isinstance(cval(l), int) else mk("bin", l, ty=T_STR), a[0], st.pc)


def b_oct(I, a, k, st, fr, node):
    return mk("oct", I.freeze(a[0], st), ty=T_STR)


def b_format(I, a, k, st, fr, node):
    spec = cval(a[1]) if len(a) > 1 and isinstance(a[1], T) and is_const(a[1]) else ("" if len(a) == 1 else None)
    if spec is None:
        return mk("format", I.freeze(a[0], st), I.freeze(a[1], st), ty=T_STR)
    return I.fmt1(a[0], spec, st)


def b_ord(I, a, k, st, fr, node):
    return vmap(lambda l: C(ord(cval(l))) if is_const(l) and isinstance(cval(l), str) and len(cval(l)) == 1 else mk("ord", I.freeze(l, st), ty=T_INT), a[0], st.pc)


def b_chr(I, a, k, st, fr, node):
    return vmap(lambda l: C(chr(cval(l))) if is_const(l) else mk("chr", I.freeze(l, st), ty=T_STR), a[0], st.pc)


def b_abs(I, a, k, st, fr, node):
    return vmap(lambda l: C(abs(cval(l))) if is_const(l) else mk("abs", I.freeze(l, st), ty=T_INT), a[0], st.pc)


def b_hash(I, a, k, st, fr, node):
    I.eff("extcall", st, ("hash", _frz(I, st, a), ()), node, fr)
    return mk("hash", I.freeze(a[0], st), ty=T_INT)


def b_id(I, a, k, st, fr, node):
    I.eff("extcall", st, ("id", (), ()), node, fr)
    return mk("id", I.freeze(a[0], st), ty=T_INT)


def b_pow(I, a, k, st, fr, node):
    import ast

    if len(a) == 2:
        return I.binop(ast.Pow(), a[0], a[1], st, node, fr)
    return opaque_call(I, "pow", a, k, st, fr, node, T_INT)


def b_divmod(I, a, k, st, fr, node):
    import ast

    return I.tuple_(st, [I.binop(ast.FloorDiv(), a[0], a[1], st, node, fr), I.binop(ast.Mod(), a[0], a[1], st, node, fr)])


def b_round(I, a, k, st, fr, node):
    return mk("round", *_frz(I, st, a))


def b_range(I, a, k, st, fr, node):
    n = 1
    for x in a:
        n *= len(alts(x))
    if n > 8:
        return mk("range", *[I.freeze(x, st) for x in a], ty=T_LIST(T_INT))
    outs = [(TRUE, [])]
    for x in a:
        outs = [(band(g, g2), acc + [l]) for g, acc in outs for g2, l in alts(x) if band(g, g2) != FALSE]
    res = []
    for g, acc in outs:
        if len(acc) == 1:
            acc = [C(0)] + acc
        if len(acc) == 3 and acc[2] is C(1):
            acc = acc[:2]
        if acc[0] is C(0) and len(acc) == 2:
            acc = acc[1:]
        if len(acc) == 1 and acc[0].op == "len" and acc[0].args[0].op in ("item", "attr", "app", "sym", "dget", "elem", "findall"):
            # the positions of a sequence
            src = acc[0].args[0]
            e = I.elem_of(src)
            res.append((g, I.new_list(st, (each(e, src, (one(TRUE, mk("idx", e, src, ty=T_INT)),), TRUE),))))
            continue
        res.append((g, mk("range", *acc, ty=T_LIST(T_INT))))
    return gate(res)


def _seq_term(I, v, st, fr, node):
    """freeze a sequence value to a term denoting the sequence"""
    return I.freeze(v, st)


def b_enumerate(I, a, k, st, fr, node):
    start = a[1] if len(a) > 1 else k.get("start", C(0))
    out = I.new_list(st, ())

    def body(v, s, f):
        c = I.ctx[-1] if I.ctx else None
        # position of the current element in its source
        if c is not None and I._enum_active:
            ix = aff_add(mk("idx", c[0], c[1], ty=T_INT), start if isinstance(start, T) else mk("opaque", "start"))
        else:
            ix = C(len(s.heap[out].items)) if start is C(0) else mk("opaque", "enum")
        tup = I.tuple_(s, [ix, v])
        h = s.heap[out]
        s.heap[out] = h.with_(items=h.items + (one(TRUE, tup),))
        return s

    lit = _literal_items(I, a[0], st)
    if lit is not None and isinstance(start, T) and is_const(start):
        its = [one(TRUE, I.tuple_(st, [C(i + cval(start)), v])) for i, v in enumerate(lit)]
        return I.new_list(st, its)
    I._enum_active = True
    try:
        r, _ = I.loop_over(a[0], st, fr, body, node)
    finally:
        I._enum_active = False
    if r is not None:
        st.assign_from(r)
    return out


def _literal_items(I, v, st):
    if isinstance(v, T) and v.op == "ref":
        return I.known_items(v, st)
    if isinstance(v, T) and v.op == "c" and isinstance(cval(v), str):
        return [C(x) for x in cval(v)]
    if isinstance(v, T) and v.op in ("cls", "range"):
        its, od, _ = I.seq_items(v, st, None, None)
        if od is None and all(i.op == "one" and i.args[0].args[0] == TRUE for i in its):
            return [val_of(i.args[1]) for i in its]
    return None


def b_zip(I, a, k, st, fr, node):
    lits = [_literal_items(I, x, st) for x in a]
    if all(l is not None for l in lits):
        return I.new_list(st, [one(TRUE, I.tuple_(st, list(t))) for t in zip(*lits)])
    # zip of lists ranging one-to-one over the same source
    infos = []
    for x in a:
        if not isinstance(x, T):
            infos = None
            break
        its, od, kind = I.seq_items(x, st, node, fr)
        if len(its) != 1:
            infos = None
            break
        it = its[0]
        if it.op == "splat" and it.args[0].args[0] == TRUE:
            src = I._ordered(it.args[1], od)
            e = I.elem_of(src)
            infos.append((e, src, e))
        elif it.op == "each" and it.args[0].args[0] == TRUE and len(it.args[3]) == 1 and it.args[3][0].op == "one" and it.args[3][0].args[0].args[0] == TRUE and not od:
            infos.append((it.args[1], it.args[2], it.args[3][0].args[1]))
        else:
            infos = None
            break
    if infos and all(i[0] is infos[0][0] and i[1] is infos[0][1] for i in infos):
        tup = I.tuple_(st, [val_of(i[2]) for i in infos])
        return I.new_list(st, [each(infos[0][0], infos[0][1], (one(TRUE, tup),))])
    return mk("zip", *_frz(I, st, a))


def b_sorted(I, a, k, st, fr, node):
    its, od = I.as_items(a[0], st, fr, node)
    out = I.new_list(st, its, order=od)
    sort_ref(I, out, k, st, fr, node)
    return out


def _plain(v, st):
    """the value of a constant, or of a tuple or list of constants; None when it is not one"""
    if isinstance(v, T) and is_const(v):
        return (cval(v),)
    if isinstance(v, T) and v.op == "ref" and st.heap[v].kind in ("tuple", "list") and st.heap[v].order is None \
            and all(i.op == "one" and i.args[0].args[0] == TRUE for i in st.heap[v].items):
        xs = [_plain(val_of(i.args[1]), st) for i in st.heap[v].items]
        return None if None in xs else (tuple(x[0] for x in xs),)
    return None


def _sort_known(I, h, key, rev, st, fr, node):
    """the order of a list of known values with known keys"""
    if h.kind not in ("list", "tuple") or h.order is not None or not h.items or len(h.items) > 64:
        return None
    if not all(i.op == "one" and i.args[0].args[0] == TRUE for i in h.items):
        return None
    r = I.truth(rev, st)
    if r not in (TRUE, FALSE):
        return None
    keyed = []
    for it in h.items:
        v = val_of(it.args[1])
        if not (isinstance(v, T) and (is_const(v) or v.op == "enum")):
            return None
        try:
            p = _plain(v if isinstance(key, T) and key is NONE else I.call(key, [v], {}, st, fr, node), st)
        except Unreachable:
            return None
        if p is None:
            return None
        keyed.append((p, it))
    try:
        return tuple(it for _, it in sorted(keyed, key=lambda x: x[0], reverse=r == TRUE))
    except TypeError:
        return None


def sort_key(I, ref, key, st, fr, node):
    h = st.heap[ref]
    et = _items_ty(I, h.items, st)
    plain = mk("key", "e")
    e = mk("key", "e", str(sorted(map(str, et))), ty=et) if et is not None else plain  # terms are shared: one variable per type
    if isinstance(key, T) and key is NONE:
        return plain
    s2 = st.copy()
    mark = len(I.log)
    try:
        kt = I.freeze(I.call(key, [e], {}, s2, fr, node), s2)
        if e is not plain:
            kt = Subst({e: plain}).term(kt)
    except Unreachable:
        kt = mk("opaque", "sortkey")
    del I.log[mark:]
    return kt


def _key_parts(I, kt, st):
    """the components of a key, the most significant first: tuples of one length taken apart, truth values as numbers"""
    if not isinstance(kt, T):
        return [kt]
    ls = [(g, l) for g, l in alts(val_of(kt))]
    if ls and all(isinstance(l, T) and l.op == "lst" and l.args[0] == "tuple"
                  and all(i.op == "one" and i.args[0].args[0] == TRUE for i in l.args[1]) for _, l in ls):
        n = len(ls[0][1].args[1])
        if all(len(l.args[1]) == n for _, l in ls):
            out = []
            for j in range(n):
                out += _key_parts(I, gterm(gate([(g2, x) for g, l in ls for h, x in alts(val_of(l.args[1][j].args[1])) if (g2 := band(g, h)) != FALSE])), st)
            return out
    if any(tyof(l) == {("bool",)} for _, l in ls):
        return [gterm(vmap(lambda l: vite(I.truth(l, st), C(1), C(0)) if tyof(l) == {("bool",)} else l, val_of(kt)))]
    consts = [(g, l) for g, l in ls if is_const(l)]
    others = [(g, l) for g, l in ls if not is_const(l)]
    if consts and len(others) == 1:
        # `x or ''` and `'' if x is None else x` are one key: where x is the constant, say x
        gx, x = others[0]
        moved = []
        for g, c in consts:
            q = eq_leaf(x, c)
            gx = bor(gx, band(g, q))
            moved.append((band(g, bnot(q)), c))
        return [gterm(gate([(g, l) for g, l in moved + [(gx, x)] if g != FALSE]))]
    return [kt]


def sort_ref(I, ref, k, st, fr, node):
    """an order is the sorts done one after the other: sorting is stable, so a tuple key is a sort by each of its
    components, the last one first, and an earlier sort by a key is undone by a later sort by the same key"""
    key = k.get("key", NONE)
    rev = k.get("reverse", FALSE_T)
    h = st.heap[ref]
    known = _sort_known(I, h, key, rev, st, fr, node)
    if known is not None:
        st.heap[ref] = h.with_(items=known)
        return
    kt = sort_key(I, ref, key, st, fr, node)
    rt = bterm(I.truth(rev, st))
    ks = [q for q in reversed(_key_parts(I, kt, st)) if not is_const(q)]
    order = h.order or ()
    for q in ks:
        if all(isinstance(o, tuple) for o in order):
            order = tuple(o for o in order if o[0] is not q)
        order += ((q, rt),)
    st.heap[ref] = h.with_(order=order, items=h.items)


def _items_ty(I, items, st):
    out = frozenset()
    for it in items:
        if it.op == "one":
            for g, l in alts(val_of(it.args[1])):
                if l.op == "ref" and st.heap[l].kind == "inst":
                    out |= ty(("cls", st.heap[l].cls.qual))
                else:
                    t = tyof(l)
                    if t is None:
                        return None
                    out |= t
        elif it.op == "each":
            t = _items_ty(I, it.args[3], st)
            if t is None:
                return None
            out |= t
        elif it.op == "splat":
            t = I.elem_ty(it.args[1])
            if t is None:
                return None
            out |= t
        else:
            return None
    return out or None


def b_reversed(I, a, k, st, fr, node):
    its, od = I.as_items(a[0], st, fr, node)
    lit = _literal_items(I, a[0], st)
    if lit is not None:
        return I.new_list(st, [one(TRUE, x) for x in reversed(lit)])
    return I.new_list(st, its, order=(od or ()) + ("rev",))


def _flat_max(kind, ts):
    out = []
    for t in ts:
        if t.op == "maxn" and t.args[0] == kind:
            out += [x for x in t.args[1]]
        else:
            out.append(t)
    consts = [cval(x) for x in out if is_const(x)]
    rest = sorted({x for x in out if not is_const(x)}, key=lambda x: x.uid)
    if consts:
        m = max(consts) if kind == "max" else min(consts)
        rest.append(C(m))
    if len(rest) == 1:
        return rest[0]
    return mk("maxn", kind, tuple(rest), ty=T_INT)


def _minmax(I, kind, a, k, st, fr, node):
    if len(a) > 1 and "key" not in k:
        outs = [(TRUE, [])]
        for x in a:
            outs = [(band(g, g2), acc + [l]) for g, acc in outs for g2, l in alts(x) if band(g, g2) != FALSE]
            if len(outs) > 32:
                return mk("op", kind, *_frz(I, st, a), ty=T_INT)
        return gate([(g, _flat_max(kind, acc)) for g, acc in outs])
    if "key" in k:
        seq = a[0] if len(a) == 1 else I.new_list(st, [one(TRUE, x) for x in a])
        lit = _literal_items(I, seq, st)
        if lit:
            known = _sort_known(I, st.heap[I.new_list(st, [one(TRUE, x) for x in lit])], k["key"], C(kind == "max"), st, fr, node)
            if known:
                return val_of(known[0].args[1])
        its, od = I.as_items(seq, st, fr, node)
        kt = sort_key(I, I.new_list(st, its), k["key"], st, fr, node)
        base = I.freeze(seq, st)
        return mk("argbest", kind, base, kt, ty=I.elem_ty(base))
    its, od = I.as_items(a[0], st, fr, node)
    lit = _literal_items(I, a[0], st)
    if lit:
        return _minmax(I, kind, lit, {}, st, fr, node) if len(lit) > 1 else lit[0]
    d = k.get("default")
    base = NONE if d is None else gterm(d)
    fits = tuple(I.freeze_item(i, st) for i in its)
    fits = tuple(each(I.elem_of(i.args[1]), i.args[1], (one(TRUE, I.elem_of(i.args[1])),), i.args[0].args[0]) if i.op == "splat" else i for i in fits)
    if d is None:
        ne = bor(*[I.item_ne(i) for i in its])
        I.maybe_raise(st, bnot(ne), "ValueError", node, fr, (C(f"{kind}() of empty"),))
    return _extreme(kind, base, fits)


def _extreme(kind, base, fits):
    """the greatest or least of the values; what all of them have added to them alike is added outside"""
    fits = one_by_one(fits)
    plain = mk("fold", kind, base, fits, ty=T_INT)
    if base is not NONE:
        return plain
    leaves, bound = [], set()

    def walk(its):
        for it in its:
            if it.op == "each":
                bound.add(it.args[1])
                if not walk(it.args[3]):
                    return False
            elif it.op == "one":
                leaves.extend(l for _, l in alts(val_of(it.args[1])))
            else:
                return False
        return True

    if not walk(fits) or not leaves or any(not isinstance(l, T) or tyof(l) is None or not tyof(l) <= {("int",)} for l in leaves):
        return plain
    ps = [aff_parts(l) for l in leaves]
    k = ps[0][0] if all(q[0] == ps[0][0] for q in ps) else 0
    d = {x: c for x, c in ps[0][1].items() if all(q[1].get(x) == c for q in ps) and not any(occurs(e, x) for e in bound)}
    off = aff_build(k, d)
    if off is C(0):
        return plain

    def cut(its):
        out = []
        for it in its:
            if it.op == "each":
                out.append(each(it.args[1], it.args[2], cut(it.args[3]), it.args[0].args[0]))
            else:
                out.append(one(it.args[0].args[0], gterm(vmap(lambda l: aff_add(l, off, -1), val_of(it.args[1])))))
        return tuple(out)

    return aff_add(off, mk("fold", kind, base, one_by_one(cut(fits)), ty=T_INT))


def b_max(I, a, k, st, fr, node):
    return _minmax(I, "max", a, k, st, fr, node)


def b_min(I, a, k, st, fr, node):
    return _minmax(I, "min", a, k, st, fr, node)


def b_sum(I, a, k, st, fr, node):
    import ast

    start = a[1] if len(a) > 1 else k.get("start", C(0))
    lit = _literal_items(I, a[0], st)
    if lit is not None:
        v = start
        for x in lit:
            v = I.binop(ast.Add(), v, x, st, node, fr)
        return v
    if isinstance(start, T) and start.op == "ref":
        out = I.new_list(st, st.heap[start].items)

        def body(v, s, f):
            I.call_method_ref(out, "extend", [v], {}, s, f, node)
            return s

        r, _ = I.loop_over(a[0], st, fr, body, node)
        if r is not None:
            st.assign_from(r)
        return out
    its, od = I.as_items(a[0], st, fr, node)
    fits = tuple(I.freeze_item(i, st) for i in its)
    fits = tuple(each(I.elem_of(i.args[1]), i.args[1], (one(TRUE, I.elem_of(i.args[1])),), i.args[0].args[0]) if i.op == "splat" else i for i in fits)
    return mk("fold", "sum", gterm(start), one_by_one(fits), ty=T_INT)


def _anyall(I, seq, st, neg):
    r = FALSE
    its, od = I.as_items(seq, st, None, None)
    for it in its:
        r = bor(r, _item_true(I, it, st, neg))
    return r


def _item_true(I, it, st, neg):
    g = it.args[0].args[0] if it.op in ("one", "each", "splat") else TRUE
    if it.op == "one":
        t = I.truth(val_of(it.args[1]), st)
        return band(g, bnot(t) if neg else t)
    if it.op == "each":
        inner = bor(*[_item_true(I, x, st, neg) for x in it.args[3]])
        return band(g, exists(it.args[1], it.args[2], inner))
    src = it.args[1] if it.op == "splat" else it
    e = I.elem_of(src)
    t = I.truth(e, st)
    return band(g, exists(e, src, bnot(t) if neg else t))


def b_any(I, a, k, st, fr, node):
    return bval(_anyall(I, a[0], st, False))


def b_all(I, a, k, st, fr, node):
    return bval(bnot(_anyall(I, a[0], st, True)))


def b_map(I, a, k, st, fr, node):
    if len(a) == 2:
        return I.map_items(a[1], st, fr, node, lambda v, s: I.call(a[0], [v], {}, s, fr, node))
    z = b_zip(I, a[1:], {}, st, fr, node)
    return I.map_items(z, st, fr, node, lambda v, s: I.call(a[0], I.known_items(v, s) or [mk("opaque", "zip")], {}, s, fr, node))


def b_filter(I, a, k, st, fr, node):
    if isinstance(a[0], T) and a[0] is NONE:
        return I.filter_items(a[1], st, fr, node, lambda v, s: I.truth(v, s))
    return I.filter_items(a[1], st, fr, node, lambda v, s: I.truth(I.call(a[0], [v], {}, s, fr, node), s))


def b_list(I, a, k, st, fr, node):
    if not a:
        return I.new_list(st, ())
    its, od = I.as_items(a[0], st, fr, node)
    return I.new_list(st, its, order=od)


def b_tuple(I, a, k, st, fr, node):
    if not a:
        return I.new_list(st, (), kind="tuple")
    its, od = I.as_items(a[0], st, fr, node)
    return I.new_list(st, its, kind="tuple", order=od)


def b_set(I, a, k, st, fr, node):
    if not a:
        return I.new_list(st, (), kind="set")
    its, od = I.as_items(a[0], st, fr, node)
    return I.new_list(st, its, kind="set")


b_frozenset = b_set


def b_dict(I, a, k, st, fr, node):
    items = []
    if a:
        for g, l in alts(a[0]):
            if l.op == "ref" and st.heap[l].kind == "dict":
                items += [guard_item(i, g) if i.op in ("kv", "each", "splat") else i for i in st.heap[l].items]
            elif l.op == "ref":
                for it in st.heap[l].items:
                    items.append(_pair_to_kv(I, it, st))
            else:
                items.append(splat(I.freeze(l, st), g))
    items += [mk("kv", bterm(TRUE), C(n), gterm(v)) for n, v in k.items() if n != "**"]
    return I.new_list(st, items, kind="dict")


def _pair_to_kv(I, it, st):
    if it.op == "one":
        v = val_of(it.args[1])
        kv = I.known_items(v, st) if isinstance(v, T) else None
        if kv is not None and len(kv) == 2:
            return mk("kv", it.args[0], gterm(kv[0]), gterm(kv[1]))
        return splat(mk("opaque", "pair"), it.args[0].args[0])
    if it.op == "each":
        return mk("each", it.args[0], it.args[1], it.args[2], tuple(_pair_to_kv(I, x, st) for x in it.args[3]))
    return it


def b_iter(I, a, k, st, fr, node):
    return a[0]


def first_of(I, v, st, fr, node, default):
    """first element satisfying the item guards"""
    def leaf(l):
        its, od, kind = I.seq_items(l, st, node, fr)
        out = []
        rem = TRUE
        for it in its:
            g = it.args[0].args[0] if it.args and isinstance(it.args[0], T) and it.args[0].op == "b" else TRUE
            if it.op == "one":
                out.append((band(rem, g), val_of(it.args[1])))
                rem = band(rem, bnot(g))
            elif it.op == "splat" and g == TRUE:
                src = I._ordered(it.args[1], od)
                ne = nonempty(src)
                out.append((band(rem, ne), I.index_term(src, 0, None, st)))
                rem = band(rem, bnot(ne))
            elif it.op == "each":
                e, src, inner = it.args[1:]
                cond = bor(*[I.item_ne(x) for x in inner])
                if len(inner) == 1 and inner[0].op == "one":
                    ex = band(g, exists(e, src, cond))
                    psrc = I._ordered(src, od)
                    if cond == TRUE:
                        el = I.index_term(psrc, 0, None, st)
                    else:
                        el = mk("elem!", psrc, bterm(Subst({e: mk("it")}).bdd(cond)), ty=e.ty)
                    sub = Subst({e: el}, lambda t, sb: I.heap_clone(t, sb, st, e))
                    out.append((band(rem, ex), sub.val(val_of(inner[0].args[1]))))
                    rem = band(rem, bnot(ex))
                else:
                    return None, TRUE
            else:
                return None, TRUE
        return out, rem

    res = []
    for g, l in alts(v):
        out, rem = leaf(l)
        if out is None:
            t = mk("opaque", "first", I.freeze(l, st))
            return t
        for gg, x in out:
            for g2, l2 in alts(x):
                res.append((band(g, gg, g2), l2))
        rg = band(g, rem)
        if rg != FALSE:
            if default is None:
                I.maybe_raise(st, rg, "StopIteration", node, fr, ())
            else:
                for g2, l2 in alts(default):
                    res.append((band(rg, g2), l2))
    return gate(res)


def b_next(I, a, k, st, fr, node):
    v = a[0]
    r = first_of(I, v, st, fr, node, a[1] if len(a) > 1 else None)
    return r


def b_getattr(I, a, k, st, fr, node):
    if isinstance(a[1], T) and is_const(a[1]) and isinstance(cval(a[1]), str):
        n = cval(a[1])
        if len(a) > 2:
            outs = []
            for g, l in alts(a[0]):
                if band(g, st.pc) == FALSE:
                    continue
                if l.op != "ref" and l.ty is not None and len(l.ty) > 1 and all(x[0] in ("cls", "none") for x in l.ty):
                    # one of several classes: the attribute where the class has it, the default elsewhere
                    outs += [(band(g, g2), l2) for g2, l2 in alts(_getattr_union(I, l, n, a[2], st, fr, node))]
                    continue
                hs = has_attr(I, l, n, st)
                if hs is False:
                    outs += [(band(g, g2), l2) for g2, l2 in alts(a[2])]
                else:
                    r = I.getattr(l, n, st, fr, node) if not (is_const(l) and cval(l) is None) else a[2]
                    nn = is_none(l)
                    if nn not in (TRUE, FALSE):
                        r = vite(nn, a[2], r)
                    outs += [(band(g, g2), l2) for g2, l2 in alts(r)]
            return gate(outs)
        return I.getattr(a[0], n, st, fr, node)
    if isinstance(a[1], G):
        outs = []
        for g, l in a[1].alts:
            if band(g, st.pc) == FALSE:
                continue
            r = b_getattr(I, [a[0], l] + list(a[2:]), k, st, fr, node)
            outs += [(band(g, g2), l2) for g2, l2 in alts(r)]
        return gate(outs)
    return mk("dattr", I.freeze(a[0], st), I.freeze(a[1], st))


def _getattr_union(I, l, n, default, st, fr, node):
    outs, rest = [], TRUE
    v = None
    for x in sorted(l.ty):
        c = is_none(l) if x[0] == "none" else I.isinst_leaf(l, mk("cls", x[1]), st)
        here = band(rest, c)
        rest = band(rest, bnot(c))
        if here == FALSE:
            continue
        hs = False if x[0] == "none" else has_attr(I, mk("probe", x[1], ty=ty(x)), n, st)
        if hs is False:
            r = default
        else:
            if v is None:
                v = I.getattr(l, n, st, fr, node)
            r = v
        outs += [(band(here, g), q) for g, q in alts(r)]
    return gate(outs) if outs else default


def has_attr(I, l, n, st):
    """True / False / None unknown"""
    if l.op == "ref":
        h = st.heap[l]
        if h.kind == "inst":
            if n in h.attrs:
                return True
            c = h.cls
        elif h.kind in ("list", "dict", "set", "tuple"):
            return hasattr(getattr(_bi, h.kind), n)
        else:
            return None
    elif l.op == "enum":
        return True if n in ("name", "value") else (I.prog.find_method(I.prog.classes[l.args[0]], n) is not None)
    elif l.op == "c":
        return hasattr(cval(l), n)
    elif l.ty is not None and len(l.ty) == 1 and next(iter(l.ty))[0] == "cls":
        c = I.prog.classes.get(next(iter(l.ty))[1])
    else:
        return None
    if c is None:
        return None
    if I.prog.find_method(c, n) or I.prog.find_class_attr(c, n) or I.prog.attr_type(c, n) is not None or any(n == f[0] for f in I.prog.dc_fields(c)):
        return True
    init = I.prog.find_method(c, "__init__")
    return None if init is not None else False


def b_hasattr(I, a, k, st, fr, node):
    if isinstance(a[1], T) and is_const(a[1]):
        n = cval(a[1])
        out = FALSE
        for g, l in alts(a[0]):
            if l.op != "ref" and l.ty is not None and len(l.ty) > 1 and all(x[0] in ("cls", "none") for x in l.ty):
                r = FALSE
                for x in l.ty:
                    if x[0] == "cls":
                        h = has_attr(I, mk("probe", x[1], ty=ty(x)), n, st)
                        b = TRUE if h else FALSE if h is False else atom_bdd(mk("hasattr", l, n))
                        r = bor(r, band(I.isinst_leaf(l, mk("cls", x[1]), st), b))
                out = bor(out, band(g, r))
                continue
            h = has_attr(I, l, n, st)
            out = bor(out, band(g, TRUE if h else FALSE if h is False else atom_bdd(mk("hasattr", I.freeze(l, st), n))))
        return bval(out)
    return mk("call", mk("bi", "hasattr"), _frz(I, st, a), ty=T_BOOL)


def b_setattr(I, a, k, st, fr, node):
    if isinstance(a[1], T) and is_const(a[1]):
        I.setattr(a[0], cval(a[1]), a[2], st, fr, node)
    else:
        I.eff("setattr", st, (I.freeze(a[0], st), "?dynamic", I.freeze(a[2], st)), node, fr)
        for g, l in alts(a[0]):
            if l.op == "ref" and st.heap[l].kind == "inst":
                h = st.heap[l]
                kt = I.freeze(a[1], st)
                st.heap[l] = h.with_(attrs={n: mk("opaque", "dynset", kt, n) for n in h.attrs})
    return NONE


def b_callable(I, a, k, st, fr, node):
    return mk("call", mk("bi", "callable"), _frz(I, st, a), ty=T_BOOL)


def b_print(I, a, k, st, fr, node):
    I.eff("extcall", st, ("print", _frz(I, st, a), ()), node, fr)
    return NONE


def b_input(I, a, k, st, fr, node):
    I.eff("extcall", st, ("input", (), ()), node, fr)
    return mk("input_", ty=T_STR)


def b_open(I, a, k, st, fr, node):
    fa = _frz(I, st, a)
    if len(fa) == 1 and "mode" in k:
        fa += (I.freeze(k["mode"], st),)
        k = {n: v for n, v in k.items() if n != "mode"}
    fk = tuple((n, I.freeze(v, st)) for n, v in sorted(k.items()))
    I.eff("extcall", st, ("open", fa, fk), node, fr)
    if fa and path_exists(I, fa[0]) == TRUE:
        return mk("extv", "file", fa, fk)
    I.maybe_raise(st, atom_bdd(mk("raises", "OSError", mk("file", fa[0] if fa else NONE))), "FileNotFoundError", node, fr, ())
    return mk("extv", "file", fa, fk)


def b_super(I, a, k, st, fr, node):
    return mk("opaque", "super")


def b_vars(I, a, k, st, fr, node):
    return I.getattr(a[0], "__dict__", st, fr, node)


def b_object(I, a, k, st, fr, node):
    I.oid += 1
    return mk("sentinel", I.oid)


def codec(t):
    """an encoding under the name the library knows it by"""
    if is_const(t) and isinstance(cval(t), str):
        try:
            return C(codecs.lookup(cval(t)).name)
        except LookupError:
            pass
    return t


def b_property(I, a, k, st, fr, node):
    return a[0]


def b_bytes(I, a, k, st, fr, node):
    if len(a) == 1 and not k and isinstance(a[0], T) and tyof(a[0]) == {("bytes",)}:
        return a[0]
    fa = _frz(I, st, list(a) + [k[n] for n in ("encoding", "errors") if n in k])
    return mk("encode", fa[0], *(codec(x) for x in fa[1:2]), *fa[2:], ty=T_BYTES)


def b_slice(I, a, k, st, fr, node):
    return mk("opaque", "slice")


# --------------------------------------------------------------------------
# externals
# --------------------------------------------------------------------------


def external(I, name, args, kwargs, st, fr, node):
    short = name.split(".")[-1]
    f = EXT.get(name)
    if f is None and name.startswith("lxml.") and f"etree.{short}" in name:
        f = EXT.get("lxml.etree." + short)
    if f is not None:
        return f(I, args, kwargs, st, fr, node)
    if name.startswith("builtins.") or name.split(".")[0] in ("str", "dict", "list", "int", "object", "bytes", "set"):
        parts = name.split(".")
        if parts[0] == "builtins":
            return builtin(I, parts[1], args, kwargs, st, fr, node)
        if parts[0] in ("str", "bytes") and args:
            return I.per_alt(lambda l: str_method(I, l, short, args[1:], kwargs, st, fr, node), args[0], st)
        if parts[0] == "dict" and short == "fromkeys":
            return I.map_items(args[0], st, fr, node, lambda v, s: v, "set")
        if parts[0] == "object" and short in ("__setattr__",):
            return b_setattr(I, args, kwargs, st, fr, node)
        if parts[0] == "int" and short == "from_bytes":
            return opaque_call(I, name, args, kwargs, st, fr, node, T_INT)
    return opaque_call(I, name, args, kwargs, st, fr, node)


EXT: dict = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f

    return d


@ext("warnings.warn")
def x_warn(I, a, k, st, fr, node):
    cat_ = a[1] if len(a) > 1 else k.get("category", mk("bi", "UserWarning"))
    msg = a[0] if a else k.get("message", NONE)
    I.eff("warn", st, (I.freeze(msg, st), I.freeze(cat_, st)), node, fr)
    return NONE


@ext("warnings.warn_explicit")
def x_warn_explicit(I, a, k, st, fr, node):
    I.eff("warn", st, (I.freeze(a[0], st), I.freeze(a[1], st)), node, fr)
    return NONE


@ext("warnings.simplefilter", "warnings.filterwarnings", "warnings.catch_warnings", "warnings.resetwarnings")
def x_warnfilter(I, a, k, st, fr, node):
    I.eff("extcall", st, ("warnings.filter", _frz(I, st, a), ()), node, fr)
    return mk("extv", "warnfilter", ())


def copy_obj(I, v, st, deep, seen=None):
    seen = {} if seen is None else seen

    def leaf(l):
        if l.op == "ref":
            if l in seen:
                return seen[l]
            h = st.heap[l]
            I.oid += 1
            r = mk("ref", I.oid)
            seen[l] = r
            st.heap[r] = h
            if h.kind == "inst":
                at = {k: (copy_obj(I, x, st, True, seen) if deep else x) for k, x in h.attrs.items()}
                pr = copy_obj(I, h.proto, st, True, seen) if deep and h.proto is not None else h.proto
                st.heap[r] = h.with_(attrs=at, proto=pr, ctx=tuple(c[0] for c in I.ctx), site="copy")
            elif deep:
                def ci(it):
                    if it.op == "one":
                        return mk("one", it.args[0], gterm(copy_obj(I, val_of(it.args[1]), st, True, seen)))
                    if it.op == "each":
                        return mk("each", it.args[0], it.args[1], it.args[2], tuple(ci(x) for x in it.args[3]))
                    if it.op == "kv":
                        return mk("kv", it.args[0], it.args[1], gterm(copy_obj(I, val_of(it.args[2]), st, True, seen)))
                    if it.op == "splat":
                        return mk("splat", it.args[0], mk("deepcopy", it.args[1], ty=it.args[1].ty))
                    return it
                st.heap[r] = h.with_(items=tuple(ci(i) for i in h.items), ctx=tuple(c[0] for c in I.ctx))
            else:
                st.heap[r] = h.with_(ctx=tuple(c[0] for c in I.ctx))
            return r
        if l.op in ("c", "enum", "cls", "fn"):
            return l
        t = tyof(l)
        if t is not None and t <= frozenset({("int",), ("str",), ("bool",), ("none",), ("bytes",)}):
            return l
        if t is not None and all(x == ("none",) or (x[0] == "cls" and x[1] in I.prog.classes and I.prog.is_enum(I.prog.classes[x[1]])) for x in t):
            return l
        if not deep:
            if t is not None:
                cs = [I.prog.classes.get(x[1]) for x in t if x[0] == "cls"]
                if len(cs) == 1 and len(t) == 1 and cs[0] is not None:
                    r = I.alloc(st, "inst", cls=cs[0], site="copy")
                    at = {n: v2 for (o, n), v2 in st.store.items() if o is l}
                    st.heap[r] = st.heap[r].with_(proto=l, attrs=at)
                    return r
            if t is not None and any(x[0] in ("list", "set", "dict") for x in t):
                return I.new_list(st, [splat(l)], kind=next(x[0] for x in t if x[0] in ("list", "set", "dict")))
            return mk("shallowcopy", l, ty=l.ty)
        if t is not None:
            cs = [I.prog.classes.get(x[1]) for x in t if x[0] == "cls"]
            if len(cs) == 1 and len(t) == 1 and cs[0] is not None:
                r = I.alloc(st, "inst", cls=cs[0], site="copy")
                at = {n: v2 for (o, n), v2 in st.store.items() if o is l}
                st.heap[r] = st.heap[r].with_(proto=mk("deepcopy", l, ty=l.ty), attrs=at)
                return r
        return mk("deepcopy", l, ty=l.ty)

    return vmap(leaf, v, st.pc)


@ext("copy.copy")
def x_copy(I, a, k, st, fr, node):
    return copy_obj(I, a[0], st, False)


@ext("copy.deepcopy")
def x_deepcopy(I, a, k, st, fr, node):
    return copy_obj(I, a[0], st, True)


@ext("dataclasses.fields")
def x_fields(I, a, k, st, fr, node):
    def leaf(l):
        c = None
        if l.op == "cls":
            c = I.prog.classes.get(l.args[0])
        elif l.op == "ref" and st.heap[l].kind == "inst":
            c = st.heap[l].cls
        elif l.ty is not None and len(l.ty) == 1 and next(iter(l.ty))[0] == "cls":
            c = I.prog.classes.get(next(iter(l.ty))[1])
        elif l.op == "typeof":
            return leaf(l.args[0])
        if c is None:
            return mk("call", mk("ext", "dataclasses.fields"), (I.freeze(l, st),), ())
        return I.new_list(st, [one(TRUE, mk("dcfield", f[0], c.qual)) for f in I.prog.dc_fields(c)], kind="tuple")

    return vmap(leaf, a[0], st.pc)


@ext("dataclasses.replace")
def x_replace(I, a, k, st, fr, node):
    r = copy_obj(I, a[0], st, False)
    for n, v in k.items():
        for g, l in alts(r):
            if l.op == "ref":
                h = st.heap[l]
                st.heap[l] = h.set_attr(n, v)
    return r


@ext("dataclasses.asdict")
def x_asdict(I, a, k, st, fr, node):
    return opaque_call(I, "dataclasses.asdict", a, k, st, fr, node)


@ext("dataclasses.field")
def x_dcf(I, a, k, st, fr, node):
    return k.get("default", mk("unbound"))


@ext("dataclasses.is_dataclass")
def x_isdc(I, a, k, st, fr, node):
    return TRUE_T


@ext("typing.cast")
def x_cast(I, a, k, st, fr, node):
    v = a[1] if len(a) > 1 else k.get("val")
    if len(a) > 0 and getattr(node, "args", None) and isinstance(v, T) and v.ty is None and v.op not in ("c", "ref"):
        t = I.prog.ann_type(fr.module, node.args[0])
        if t is not None:
            v.ty = t
    return v


@ext("typing.TypeVar", "typing.ParamSpec", "typing.NewType")
def x_typevar(I, a, k, st, fr, node):
    return mk("extv", "typevar", _frz(I, st, a))


@ext("functools.partial")
def x_partial(I, a, k, st, fr, node):
    return mk("partial", gterm(a[0]), tuple(gterm(x) for x in a[1:]), tuple((n, gterm(v)) for n, v in sorted(k.items())))


@ext("functools.reduce")
def x_reduce(I, a, k, st, fr, node):
    lit = _literal_items(I, a[1], st)
    if lit is not None:
        v = a[2] if len(a) > 2 else lit[0]
        for x in (lit if len(a) > 2 else lit[1:]):
            v = I.call(a[0], [v, x], {}, st, fr, node)
        return v
    # fold as a loop over a cell
    if len(a) > 2:
        cell = I.new_list(st, [one(TRUE, a[2])])
        fid = fr.fid
        st.envs[fid]["$acc"] = a[2]

        def body(v, s, f):
            s.envs[fid]["$acc"] = I.call(a[0], [s.envs[fid]["$acc"], v], {}, s, f, node)
            return s

        r, _ = I.loop_over(a[1], st, fr, body, node)
        if r is not None:
            st.assign_from(r)
        return st.envs[fid].pop("$acc")
    return opaque_call(I, "functools.reduce", a, k, st, fr, node)


@ext("functools.wraps", "functools.lru_cache", "functools.cache", "functools.cmp_to_key")
def x_wraps(I, a, k, st, fr, node):
    return mk("ext", "identity_decorator")


@ext("identity_decorator")
def x_ident(I, a, k, st, fr, node):
    return a[0]


@ext("operator.attrgetter")
def x_attrgetter(I, a, k, st, fr, node):
    return mk("getter", tuple(cval(x) for x in a))


@ext("operator.itemgetter")
def x_itemgetter(I, a, k, st, fr, node):
    return mk("getter", tuple(cval(x) if not isinstance(cval(x), str) else cval(x) for x in a)) if all(isinstance(cval(x), int) for x in a) \
        else opaque_call(I, "operator.itemgetter", a, k, st, fr, node)


@ext("operator.methodcaller")
def x_methodcaller(I, a, k, st, fr, node):
    return mk("mgetter", cval(a[0]))


@ext("itertools.chain")
def x_chain(I, a, k, st, fr, node):
    items, orders = (), []
    for x in a:
        its, od = I.as_items(x, st, fr, node)
        items += its
        orders.append(od)
    return I.new_list(st, items, order=joined_order(orders))


@ext("itertools.chain.from_iterable")
def x_chain_it(I, a, k, st, fr, node):
    out = I.new_list(st, ())

    def body(v, s, f):
        I.call_method_ref(out, "extend", [v], {}, s, f, node)
        return s

    r, _ = I.loop_over(a[0], st, fr, body, node)
    if r is not None:
        st.assign_from(r)
    return out


@ext("itertools.product")
def x_product(I, a, k, st, fr, node):
    fk = tuple((n, I.freeze(v, st)) for n, v in sorted(k.items()))
    return mk("product", _frz(I, st, a), fk)


@ext("itertools.combinations", "itertools.permutations", "itertools.pairwise")
def x_comb(I, a, k, st, fr, node):
    return mk("opaque", "comb", _frz(I, st, a))


@ext("itertools.count")
def x_count(I, a, k, st, fr, node):
    return mk("opaque", "count", _frz(I, st, a))


@ext("collections.defaultdict", "collections.OrderedDict")
def x_defaultdict(I, a, k, st, fr, node):
    r = I.new_list(st, (), kind="dict")
    st.heap[r] = st.heap[r].with_(proto=None, site="defaultdict", cls=None, attrs={"$factory": a[0]} if a and isinstance(a[0], T) and a[0].op != "c" else {})
    return r


@ext("collections.deque")
def x_deque(I, a, k, st, fr, node):
    return b_list(I, a[:1], {}, st, fr, node)


@ext("collections.Counter")
def x_counter(I, a, k, st, fr, node):
    return mk("opaque", "Counter", _frz(I, st, a))


@ext("re.match", "re.fullmatch", "re.search", "re.compile", "re.sub", "re.findall", "re.split")
def x_re(I, a, k, st, fr, node):
    name = ast_name(node)
    fa = _frz(I, st, a)
    if name == "compile":
        return mk("regex", fa)
    if name in ("match", "fullmatch", "search"):
        return re_match(name, fa)
    return mk("re", name, fa, ty=T_STR if name == "sub" else T_LIST(T_STR))


_langs: dict = {}
_shapes: dict = {}


def re_match(mode, fa):
    """a match against a literal is identified by the language of the literal and, for its groups, by its structure"""
    from .regexlang import language, ngroups, shape

    tm = ty(("match",), ("none",))
    if len(fa) >= 2 and is_const(fa[0]) and isinstance(cval(fa[0]), str) and all(is_const(x) and isinstance(cval(x), int) for x in fa[2:3]) and len(fa) <= 3:
        fl = cval(fa[2]) if len(fa) == 3 else 0
        l = language(cval(fa[0]), mode, fl)
        if l is not None:
            first = _langs.setdefault(l, (len(_langs), (shape(cval(fa[0]), fl), fl)))
            t = mk("rematch", first[0], fa[1], ngroups(cval(fa[0])), ty=tm)
            sh = (shape(cval(fa[0]), fl), fl)
            if sh == first[1]:
                return t
            return mk("rematchs", t, _shapes.setdefault(sh, len(_shapes)), ty=tm)
    return mk("opaque", "rematch", mode, fa, ty=tm)


def ast_name(node):
    import ast

    f = getattr(node, "func", None)
    if isinstance(f, ast.Attribute):
        return f.attr
    if isinstance(f, ast.Name):
        return f.id
    return "?"


@ext("enum.auto")
def x_auto(I, a, k, st, fr, node):
    return mk("enumauto")


def path_join(parts):
    """the joined path; a part that is not known is taken to be relative"""
    out = []
    for x in parts:
        if is_const(x) and isinstance(cval(x), str):
            if cval(x).startswith("/"):
                out = []
            x = C(posixpath.normpath(cval(x)) if cval(x) else "")
        if out:
            out.append(C("/"))
        out.append(x)
    return cat(out)


def path_part(l, name):
    v = cval(l)
    if name == "parent":
        return C(posixpath.dirname(v))
    b = posixpath.basename(v)
    if name == "name":
        return C(b)
    return C(posixpath.splitext(b)[0 if name == "stem" else 1])


def path_exists(I, l):
    if is_const(l) and isinstance(cval(l), str) and cval(l).startswith("/published/"):
        return TRUE
    if is_const(l) and isinstance(cval(l), str) and cval(l).startswith("/@/"):
        return TRUE if os.path.isfile(os.path.join(I.prog.root, posixpath.normpath(cval(l))[3:])) else FALSE
    return atom_bdd(mk("tru", mk("path", "exists", (l,), ty=T_BOOL)))


@ext("os.path.join", "pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "os.fspath")
def x_pathjoin(I, a, k, st, fr, node):
    fa = _frz(I, st, a)
    if any(alts(x) != ((TRUE, x),) and len(alts(x)) > 1 for x in fa):
        return I.cat_vals([y for n, x in enumerate(fa) for y in ((C("/"), x) if n else (x,))], st)
    return path_join(fa)


@ext("importlib.resources.files")
def x_files(I, a, k, st, fr, node):
    if a and isinstance(a[0], T) and is_const(a[0]) and isinstance(cval(a[0]), str):
        return C("/@/src/" + cval(a[0]).replace(".", "/"))
    return opaque_call(I, "importlib.resources.files", a, k, st, fr, node, T_STR)


def _pathfn(name, tt=T_STR):
    def f(I, a, k, st, fr, node):
        def leaf(l):
            if is_const(l) and isinstance(cval(l), str) and len(a) == 1:
                v = cval(l)
                if name in ("dirname", "basename"):
                    return C(getattr(posixpath, name)(v))
                if v.startswith("/"):
                    return C(posixpath.normpath(v))
            return mk("path", name, (l,) + _frz(I, st, a[1:]), ty=tt)

        return vmap(leaf, I.freeze(a[0], st)) if a else opaque_call(I, name, a, k, st, fr, node)

    EXT["os.path." + name] = f


for _n in ("dirname", "abspath", "basename", "realpath", "normpath"):
    _pathfn(_n)


@ext("os.path.exists", "os.path.isfile")
def x_exists(I, a, k, st, fr, node):
    out = FALSE
    for g, l in alts(I.freeze(a[0], st)):
        out = bor(out, band(g, path_exists(I, l)))
    return bval(out)


@ext("packaging.version.Version", "packaging.version.parse")
def x_version(I, a, k, st, fr, node):
    def leaf(l):
        if is_const(l) and isinstance(cval(l), str) and all(p.isdigit() for p in cval(l).split(".")):
            n = [int(p) for p in cval(l).split(".")]
            while len(n) > 1 and not n[-1]:
                n.pop()
            return I.tuple_(st, [C(x) for x in n])
        return mk("call", mk("ext", "packaging.version.Version"), (l,), ())

    return vmap(leaf, a[0], st.pc)


# ---- lxml -----------------------------------------------------------------


@ext("lxml.etree.Element")
def x_element(I, a, k, st, fr, node):
    r = I.alloc(st, "xml", attrs={"tag": a[0], "text": NONE, "tail": NONE}, extra=(), site=I.loc(node, fr))
    o = st.heap[r]
    ex = []
    at = a[1] if len(a) > 1 else k.get("attrib")
    if isinstance(at, T) and at.op == "ref" and st.heap[at].kind == "dict":
        ex += list(st.heap[at].items)
    for n, v in k.items():
        if n not in ("attrib", "nsmap", "**"):
            ex.append(mk("kv", bterm(TRUE), C(n), gterm(v)))
    if "nsmap" in k:
        o.attrs["$nsmap"] = k["nsmap"]
    o.extra = tuple(ex)
    return r


@ext("lxml.etree.SubElement")
def x_subelement(I, a, k, st, fr, node):
    r = x_element(I, a[1:], k, st, fr, node)
    for g, l in alts(a[0]):
        if l.op == "ref":
            h = st.heap[l]
            st.heap[l] = h.with_(items=h.items + (one(g, r),))
    return r


@ext("lxml.etree.QName")
def x_qname(I, a, k, st, fr, node):
    if len(a) == 1:
        return mk("qname", I.freeze(a[0], st))
    return mk("qname", *_frz(I, st, a))


@ext("lxml.etree.tostring")
def x_tostring(I, a, k, st, fr, node):
    fk = tuple((n, I.freeze(v, st)) for n, v in sorted(k.items()))
    uni = dict(k).get("encoding")
    t = T_STR if isinstance(uni, T) and (uni is C("unicode") or uni is mk("bi", "str")) else T_BYTES
    return mk("tostring", I.freeze(a[0], st), fk, ty=t)


@ext("lxml.etree.XMLParser")
def x_xmlparser(I, a, k, st, fr, node):
    return mk("xmlparser", tuple((n, I.freeze(v, st)) for n, v in sorted(k.items())))


@ext("lxml.etree.parse")
def x_parse(I, a, k, st, fr, node):
    fa = _frz(I, st, a)
    ps = I.freeze(k["parser"], st) if "parser" in k else (fa[1] if len(fa) > 1 else NONE)
    t = mk("xmlparse", "parse", fa[0] if fa else I.freeze(k.get("source", NONE), st), ps, ty=T_TREE)
    I.eff("xmlparse", st, (t,), node, fr)
    I.maybe_raise(st, atom_bdd(mk("raises", "XMLSyntaxError", t)), "lxml.etree.XMLSyntaxError", node, fr, (t,))
    I.maybe_raise(st, atom_bdd(mk("raises", "OSError", t)), "OSError", node, fr, (t,))
    return t


@ext("lxml.etree.fromstring", "lxml.etree.XML")
def x_fromstring(I, a, k, st, fr, node):
    fa = _frz(I, st, a)
    ps = I.freeze(k["parser"], st) if "parser" in k else (fa[1] if len(fa) > 1 else NONE)
    t = mk("xmlparse", "fromstring", fa[0] if fa else I.freeze(k.get("text", NONE), st), ps, ty=T_XML)
    I.eff("xmlparse", st, (t,), node, fr)
    I.maybe_raise(st, atom_bdd(mk("raises", "XMLSyntaxError", t)), "lxml.etree.XMLSyntaxError", node, fr, (t,))
    return t


def schema_text(I, path):
    """what the schema file says: a published schema, or how it differs from the one of the version it is named after"""
    from .xsd import PUBLISHED, components
    v = posixpath.splitext(posixpath.basename(path))[0]
    if path.startswith("/published/"):
        return f"the published schema {v}"
    try:
        with open(os.path.join(I.prog.root, posixpath.normpath(path)[3:]), "rb") as f:
            have = components(f.read())
    except (OSError, SyntaxError):
        return f"{path[3:]}, unreadable"
    for k, want in PUBLISHED.items():
        if have == want:
            return f"the published schema {k}"
    want = PUBLISHED.get(v, {})
    d = sorted(n for n in {*have, *want} if have.get(n) != want.get(n))
    return f"{path[3:]}, differing from the published schema in {', '.join(d)[:200]}"


@ext("lxml.etree.XMLSchema")
def x_schema(I, a, k, st, fr, node):
    src = I.freeze(a[0], st) if a else I.freeze(k.get("etree") or k.get("file") or NONE, st)
    files = {x for x in theory._subterms(src) if x.op == "c" and isinstance(cval(x), str) and cval(x).startswith(("/@/", "/published/"))} if isinstance(src, T) else set()
    if len(files) == 1 and all(x.op in ("app", "xmlparse", "extv", "c", "xmlparser", "xmlroot", "getroot", "roottree") for x in theory._subterms(src)):
        src = C(schema_text(I, cval(*files)))  # however it is read, the schema is the one in this file
    return mk("xmlschema", src)


@ext("lxml.etree.ElementTree")
def x_elementtree(I, a, k, st, fr, node):
    return mk("etree", I.freeze(a[0], st), ty=T_TREE)


# --------------------------------------------------------------------------
# methods on immutable / symbolic receivers
# --------------------------------------------------------------------------


def method(I, recv, name, args, kwargs, st, fr, node):
    o = recv.op
    if o == "g":
        return vmap(lambda l: method(I, l, name, args, kwargs, st, fr, node) if l.op != "ref" else ref_method(I, l, name, args, kwargs, st, fr, node), val_of(recv), st.pc)
    if o == "cls":
        return opaque_call(I, f"{recv.args[0]}.{name}", args, kwargs, st, fr, node)
    t = tyof(recv)
    rest = [x for x in t if x != ("none",)] if t is not None else []
    kinds = {x[0] for x in rest}
    if o == "xattrib":
        if name == "get":
            v = vmap(lambda l: mk("xattr", recv.args[0], I.freeze(l, st), ty=opt(T_STR)), args[0])
            if len(args) > 1:
                return vite(is_none(v), args[1], v)
            return v
        if name in ("items", "keys", "values"):
            return mk("xattrs", recv.args[0], name)
        return opaque_call(I, f"attrib.{name}", [recv] + args, kwargs, st, fr, node)
    if o == "nsmap":
        if name == "get" and args and not kwargs:
            fa = _frz(I, st, args)
            return vite(atom_bdd(mk("in", fa[0], recv)), mk("dget", recv, fa[0], ty=T_STR), args[1] if len(args) > 1 else NONE)
        return mk("nsget", name, recv.args[0], *_frz(I, st, args), ty=opt(T_STR))
    if kinds == {"xml"} or o in ("findall", "first_"):
        return xml_method(I, recv, name, args, kwargs, st, fr, node)
    if kinds == {"tree"}:
        if name == "getroot":
            return mk("getroot", recv, ty=T_XML)
        if name in ("find", "findall", "iter", "iterfind", "findtext"):
            return xml_method(I, mk("getroot", recv, ty=T_XML), name, args, kwargs, st, fr, node)
        if name == "write":
            I.eff("extcall", st, ("tree.write", (recv,) + _frz(I, st, args), tuple((n, I.freeze(v, st)) for n, v in sorted(kwargs.items()))), node, fr)
            return NONE
        return opaque_call(I, f"tree.{name}", [recv] + args, kwargs, st, fr, node)
    if kinds == {"str"} or (o == "c" and isinstance(cval(recv), str)):
        return str_method(I, recv, name, args, kwargs, st, fr, node)
    if kinds == {"bytes"}:
        if name == "decode":
            fk = {n: I.freeze(v, st) for n, v in kwargs.items()}
            fa = list(_frz(I, st, args))
            enc = fa[0] if fa else fk.get("encoding", C("utf-8"))
            err = fa[1] if len(fa) > 1 else fk.get("errors", C("strict"))
            return mk("decode", recv, codec(enc), *([err] if err is not C("strict") else []), ty=T_STR)
    if kinds and kinds <= {"list", "set", "dict", "tuple"}:
        return coll_method(I, recv, name, args, kwargs, st, fr, node, next(iter(kinds)))
    if kinds == {"match"}:
        fa = _frz(I, st, args)
        if name == "group":
            return mk("mgroup", recv, fa, ty=opt(T_STR))
        if name == "groups":
            base = recv.args[0] if recv.op == "rematchs" else recv
            if base.op == "rematch":
                return I.tuple_(st, [mk("mgroup", recv, (C(i + 1),), ty=opt(T_STR)) for i in range(base.args[2])])
            return mk("opaque", "mgroups", recv, ty=None)
        if name == "groupdict":
            return mk("mgroupdict", recv)
        return mk("call", mk("ext", "match." + name), (recv,) + fa, ())
    if o == "range":
        return coll_method(I, recv, name, args, kwargs, st, fr, node, "list")
    if o == "regex":
        fa = recv.args[0] + _frz(I, st, args)
        if name in ("match", "fullmatch", "search"):
            return re_match(name, fa)
        return mk("re", name, fa, ty=T_STR if name == "sub" else T_LIST(T_STR))
    return unknown_method(I, recv, name, args, kwargs, st, fr, node)


STR_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title", "casefold", "swapcase", "replace", "zfill", "ljust", "rjust",
           "removeprefix", "removesuffix", "expandtabs", "center", "translate"}
STR_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isdecimal", "isnumeric", "isspace", "isupper", "islower", "isidentifier"}


def _caseless(t):
    return is_const(t) and isinstance(cval(t), str) and cval(t).lower() == cval(t).upper()


def is_lower(t):
    if is_const(t) and isinstance(cval(t), str):
        return cval(t).lower() == cval(t)
    return t.op == "lower" or (t.op == "str" and t.args[0].ty == T_INT)


def lower_of(t):
    """the lower-case form of a string term; it stays outermost (see outward)"""
    if is_lower(t):
        return t
    if is_const(t) and isinstance(cval(t), str):
        return C(cval(t).lower())
    if t.op == "strm" and t.args[0] == "replace" and len(t.args[2]) == 2 and _caseless(t.args[2][0]) and is_const(t.args[2][1]):
        return mk("lower", mk("strm", "replace", t.args[1], (t.args[2][0], lower_of(t.args[2][1])), ty=T_STR), ty=T_STR)
    return mk("lower", t, ty=T_STR)


def outward(t, build):
    """build applied to a string term, the lower-casing of the term applied last (both work letter by letter)"""
    if t.op == "lower":
        return mk("lower", build(t.args[0]), ty=T_STR)
    return build(t)


def path_method(I, l, name, args, kwargs, st, fr, node):
    """methods only a pathlib path has"""
    if name == "joinpath":
        return path_join([l, *_frz(I, st, args)])
    if name in ("resolve", "absolute", "as_posix", "expanduser"):
        return l
    if name in ("exists", "is_file"):
        return bval(path_exists(I, I.freeze(l, st)))
    if name == "open":
        return b_open(I, [l, *args], kwargs, st, fr, node)
    if name in ("read_bytes", "read_text"):
        return method(I, b_open(I, [l, C("rb" if name == "read_bytes" else "r")], {}, st, fr, node), "read", [], {}, st, fr, node)
    if name in ("write_bytes", "write_text"):
        f = b_open(I, [l, C("wb" if name == "write_bytes" else "w")], kwargs, st, fr, node)
        return method(I, f, "write", args, {}, st, fr, node)
    return None


def str_method(I, l, name, args, kwargs, st, fr, node):
    if is_const(l) and isinstance(cval(l), str):
        # join on a constant separator
        if name == "join":
            return join(I, l, args[0], st, fr, node)
        if name == "format":
            return str_format(I, l, args, kwargs, st, fr, node)
        ca = []
        ok = True
        for x in args:
            if isinstance(x, T) and is_const(x):
                ca.append(cval(x))
            elif isinstance(x, T) and x.op == "ref" and I.known_items(x, st) is not None and all(is_const(y) for y in I.known_items(x, st) if isinstance(y, T)):
                ca.append(tuple(cval(y) for y in I.known_items(x, st)))
            else:
                ok = False
        if ok and not kwargs and hasattr(str, name):
            try:
                r = getattr(cval(l), name)(*ca)
            except Exception as ex:
                I.maybe_raise(st, TRUE, type(ex).__name__, node, fr, ())
                return mk("bottom")
            if isinstance(r, list):
                return I.new_list(st, [one(TRUE, C(x)) for x in r])
            if isinstance(r, tuple):
                return I.tuple_(st, [C(x) for x in r])
            return C(r)
    if name == "join":
        return join(I, l, args[0], st, fr, node)
    r = path_method(I, l, name, args, kwargs, st, fr, node)
    if r is not None:
        return r
    fl = I.freeze(l, st)
    fa = _frz(I, st, args)
    if name in ("lower", "casefold") and not fa:
        return lower_of(fl)
    if name == "upper" and not fa:
        return mk("upper", fl, ty=T_STR)
    if name == "strip" and not fa:
        return outward(fl, lambda x: mk("strip", x, ty=T_STR))
    if name == "replace" and len(fa) == 2 and _caseless(fa[0]) and is_lower(fa[1]):
        return outward(fl, lambda x: mk("strm", name, x, fa, ty=T_STR))
    if name in STR_STR:
        return mk("strm", name, fl, fa, ty=T_STR)
    if name in STR_BOOL:
        if fa and isinstance(args[0], T) and args[0].op == "ref":
            known = I.known_items(args[0], st)
            if known is not None:
                return bval(bor(*[atom_bdd(mk("tru", mk("strb", name, fl, (I.freeze(x, st),), ty=T_BOOL))) for x in known]))
        return bval(atom_bdd(mk("tru", mk("strb", name, fl, fa, ty=T_BOOL))))
    if name in ("split", "rsplit", "splitlines"):
        return mk("split", name, fl, fa, ty=T_LIST(T_STR))
    if name in ("partition", "rpartition"):
        t = mk("strm", name, fl, fa)
        return I.tuple_(st, [mk("part", t, i, ty=T_STR) for i in range(3)])
    if name in ("find", "index", "count", "rfind", "rindex"):
        r = mk("stri", name, fl, fa, ty=T_INT)
        if name in ("find", "rfind", "count") and len(args) == 1:
            has = I.contains(args[0], l, st)
            if name == "count":
                return vite(has, r, C(0))
            return vite(has, r, C(-1))
        if name in ("index", "rindex") and len(args) == 1:
            I.maybe_raise(st, bnot(I.contains(args[0], l, st)), "ValueError", node, fr, (r,))
            return r
        if name in ("index", "rindex"):
            I.maybe_raise(st, atom_bdd(mk("raises", "ValueError", r)), "ValueError", node, fr, (r,))
        return r
    if name == "encode":
        fk = {n: I.freeze(v, st) for n, v in kwargs.items()}
        enc = fa[0] if fa else fk.get("encoding", C("utf-8"))
        err = fa[1] if len(fa) > 1 else fk.get("errors", C("strict"))
        return mk("encode", fl, codec(enc), *([err] if err is not C("strict") else []), ty=T_BYTES)
    if name == "format":
        return mk("op", "strformat", fl, *fa, ty=T_STR)
    return mk("call", mk("ext", "str." + name), (fl,) + fa, ())


def join(I, sep, seq, st, fr, node):
    its, od = I.as_items(seq, st, fr, node)
    if od is None and all(i.op == "one" and i.args[0].args[0] == TRUE for i in its) and len(its) <= 12:
        parts = []
        for n, i in enumerate(its):
            if n:
                parts.append(sep)
            parts.append(val_of(i.args[1]))
        return I.cat_vals(parts, st)
    return mk("join", sep, I.freeze(seq, st), ty=T_STR)


def str_format(I, l, args, kwargs, st, fr, node):
    import string

    try:
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(cval(l)):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kwargs[field]
            else:
                raise KeyError(field)
            parts.append(I.fmt1(v, spec or "", st, 114 if conv == "r" else -1))
        return I.cat_vals(parts, st)
    except (KeyError, IndexError, ValueError):
        return mk("op", "strformat", l, *_frz(I, st, args), ty=T_STR)


def xml_method(I, recv, name, args, kwargs, st, fr, node):
    r = I.freeze(recv, st)
    fa = _frz(I, st, args)
    if name == "findall":
        return mk("findall", r, fa[0], ty=T_LIST(T_XML))
    if name in ("iterfind", "xpath"):
        return mk("findall", r, fa[0], ty=T_LIST(T_XML))
    if name == "find":
        src = mk("findall", r, fa[0], ty=T_LIST(T_XML))
        return vite(nonempty(src), mk("first", src, ty=T_XML), NONE)
    if name == "findtext":
        src = mk("findall", r, fa[0], ty=T_LIST(T_XML))
        t = mk("text", mk("first", src, ty=T_XML), ty=opt(T_STR))
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        return vite(nonempty(src), vite(is_none(t), C(""), t), d)
    tags = fa + tuple(I.freeze(v, st) for n, v in sorted(kwargs.items()) if n == "tag")
    if name == "iterchildren" and tags and set(kwargs) <= {"tag"} and all(is_const(x) and isinstance(cval(x), str) and cval(x).isalnum() for x in tags):
        if len(set(tags)) == 1:
            return mk("findall", r, tags[0], ty=T_LIST(T_XML))
        src = mk("children", r, ty=T_LIST(T_XML))
        e = I.elem_of(src)
        tag = mk("tag", e, ty=T_STR)
        return I.new_list(st, [each(e, src, [one(bor(*[I.eq(tag, x, st) for x in tags]), e)])])
    if name in ("iterchildren", "getchildren"):
        return mk("children", r, ty=T_LIST(T_XML)) if not fa and not kwargs else mk("children", r, *fa, ty=T_LIST(T_XML))
    if name in ("iter", "iterdescendants", "itertext", "iterancestors", "itersiblings"):
        return mk("xmliter", name, r, fa, ty=T_LIST(T_XML))
    if name == "get":
        v = vmap(lambda l: mk("xattr", r, I.freeze(l, st), ty=opt(T_STR)), args[0])
        if len(args) > 1:
            return vite(is_none(v), args[1], v)
        return v
    if name == "getroottree":
        return mk("roottree", r, ty=T_TREE)
    if name == "getroot":
        return mk("getroot", r, ty=T_XML)
    if name == "getparent":
        return mk("xmlparent", r, ty=opt(T_XML))
    if name in ("append", "insert", "extend", "remove", "clear", "set", "addnext", "addprevious", "replace"):
        I.eff("mutate", st, (r, name) + fa, node, fr)
        I.mutated(st, recv, name, args)
        return NONE
    if name in ("items", "keys", "values"):
        return mk("xattrs", r, name)
    return opaque_call(I, "xml." + name, [recv] + args, kwargs, st, fr, node)


MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem",
            "popleft", "appendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__"}


def coll_method(I, recv, name, args, kwargs, st, fr, node, kind):
    if name in MUTATORS:
        I.eff("mutate", st, (recv, name) + _frz(I, st, args), node, fr)
        I.mutated(st, recv, name, args)
        if name in ("pop", "popitem", "popleft", "setdefault"):
            return mk("popped", recv, name, _frz(I, st, args), ty=I.elem_ty(recv))
        return NONE
    fa = _frz(I, st, args)
    if name == "copy":
        return I.new_list(st, [splat(recv)], kind=kind)
    if name == "get":
        vt = None
        for x in recv.ty or ():
            if x[0] == "dict":
                vt = x[2]
        v = mk("dget", recv, fa[0], ty=vt)
        inn = atom_bdd(mk("in", fa[0], recv))
        return vite(inn, v, args[1] if len(args) > 1 else NONE)
    if name in ("keys",):
        return recv
    if name in ("items", "values"):
        vt = None
        for x in recv.ty or ():
            if x[0] == "dict":
                vt = x[2] if name == "values" else ty(("tuple", (x[1], x[2])))
        return mk("dictview", recv, name, ty=T_LIST(vt))
    if name in ("index", "count"):
        return mk("lstq", recv, name, fa, ty=T_INT)
    if name == "issubset":
        e = I.elem_of(recv)
        return bval(bnot(exists(e, recv, bnot(I.contains(e, args[0], st)))))
    return mk("call", mk("ext", f"{kind}.{name}"), (recv,) + fa, (), ty=None)


def unknown_method(I, recv, name, args, kwargs, st, fr, node):
    fa = _frz(I, st, args)
    fk = tuple((n, I.freeze(v, st)) for n, v in sorted(kwargs.items()))
    r = I.freeze(recv, st)
    if r.op == "xmlschema":
        if name == "validate":
            return bval(atom_bdd(mk("tru", mk("xsdvalid", r, fa, ty=T_BOOL))))
        if name == "assertValid":
            t = mk("xsdvalid", r, fa, ty=T_BOOL)
            I.eff("assertValid", st, (t,), node, fr)
            bad = bnot(atom_bdd(mk("tru", t)))
            I.do_raise(st.copy(band(st.pc, bad)), mk("exc", "lxml.etree.DocumentInvalid", t), node, fr)
            st.pc = band(st.pc, bnot(bad))
            if st.pc == FALSE:
                raise Unreachable()
            return NONE
    I.eff("extcall", st, ("." + name, (r,) + fa, fk), node, fr)
    if name == "filter_nodes" and len(args) == 1 and isinstance(args[0], T) and args[0].op in ("fn", "meth"):
        src = mk("mcall", r, "node_indices", (), (), ty=T_LIST(T_INT))
        return I.filter_items(src, st, fr, node, lambda v, s: I.truth(
            I.call(args[0], [I.subscript(recv, v, s, fr, node)], {}, s, fr, node), s))
    if name in I.traced:
        I.record(st, name, [recv] + list(args) + [v for _, v in sorted(kwargs.items())])
    t = mk("mcall", r, name, fa, fk)
    if I.small is not None and name in RX_LISTS:
        return I.sized(mk("rxlist", t, ty=T_LIST(RX_LISTS[name])))
    if name == "add_edge" and len(args) == 3:
        I.maybe_raise(st, atom_bdd(mk("raises", "DAGWouldCycle", t)), "rustworkx.DAGWouldCycle", node, fr, (t,))
    return t


RX_LISTS = {"out_edges": ty(("tuple", (T_INT, T_INT, None))), "in_edges": ty(("tuple", (T_INT, T_INT, None))),
            "successors": None, "predecessors": None, "node_indices": T_INT}


# --------------------------------------------------------------------------
# methods on heap containers
# --------------------------------------------------------------------------


def ref_method(I, recv, name, args, kwargs, st, fr, node):
    h = st.heap[recv]
    f = globals().get(f"{h.kind}_{name}")
    if f is not None:
        return f(I, recv, h, args, kwargs, st, fr, node)
    if h.kind in ("list", "set", "dict") and name in MUTATORS:
        I._havoc_container(recv, st)
        return mk("opaque", name, I.freeze(recv, st))
    if h.kind in ("list", "tuple") and name in ("index", "count"):
        return mk("lstq", I.freeze(recv, st), name, _frz(I, st, args), ty=T_INT)
    if h.kind == "inst":
        return unknown_method(I, recv, name, args, kwargs, st, fr, node)
    return mk("call", mk("ext", f"{h.kind}.{name}"), (I.freeze(recv, st),) + _frz(I, st, args), ())


def list_append(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(items=h.items + (one(TRUE, a[0]),), order=joined_order((h.order,)))
    return NONE


def list_extend(I, r, h, a, k, st, fr, node):
    its, od = I.as_items(a[0], st, fr, node)
    if od is not None:
        fz = I.freeze(a[0], st)
        if not any(_mentions_ref(i) for i in its):
            its, od = (splat(fz),), None
    if h.items or h.order:
        od = joined_order((h.order, od))
    st.heap[r] = h.with_(items=h.items + tuple(its), order=od)
    return NONE


def _mentions_ref(i):
    if isinstance(i, T):
        if i.op == "ref":
            return True
        return any(_mentions_ref(x) for x in i.args)
    if isinstance(i, tuple):
        return any(_mentions_ref(x) for x in i)
    return False


def list_insert(I, r, h, a, k, st, fr, node):
    if isinstance(a[0], T) and a[0] is C(0):
        st.heap[r] = h.with_(items=(one(TRUE, a[1]),) + h.items)
    else:
        st.heap[r] = h.with_(items=h.items + (one(TRUE, a[1]),), order=((mk("opaque", "insert"),),))
    return NONE


def list_pop(I, r, h, a, k, st, fr, node):
    lit = I.known_items(r, st)
    ix = cval(a[0]) if a and isinstance(a[0], T) and is_const(a[0]) else (-1 if not a else None)
    if lit and ix is not None and -len(lit) <= ix < len(lit):
        its = list(h.items)
        v = its.pop(ix)
        st.heap[r] = h.with_(items=tuple(its))
        return val_of(v.args[1])
    fz = I.freeze(r, st)
    ety = _items_ty(I, h.items, st)
    I.oid += 1
    I._havoc_container(r, st)
    return mk("opaque", "pop", I.oid, ty=ety)


def list_popleft(I, r, h, a, k, st, fr, node):
    return list_pop(I, r, h, [C(0)], k, st, fr, node)


list_appendleft = lambda I, r, h, a, k, st, fr, node: list_insert(I, r, h, [C(0), a[0]], k, st, fr, node)


def list_remove(I, r, h, a, k, st, fr, node):
    I._havoc_container(r, st)
    return NONE


def list_clear(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(items=(), order=None)
    return NONE


set_clear = dict_clear = list_clear


def list_copy(I, r, h, a, k, st, fr, node):
    return I.new_list(st, h.items, kind=h.kind, order=h.order)


set_copy = dict_copy = list_copy


def list_sort(I, r, h, a, k, st, fr, node):
    sort_ref(I, r, k, st, fr, node)
    return NONE


def list_reverse(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(order=(h.order or ()) + ("rev",))
    return NONE


def set_add(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(items=h.items + (one(TRUE, a[0]),))
    return NONE


def set_update(I, r, h, a, k, st, fr, node):
    for x in a:
        its, od = I.as_items(x, st, fr, node)
        h = h.with_(items=h.items + tuple(its))
    st.heap[r] = h
    return NONE


def set_discard(I, r, h, a, k, st, fr, node):
    I._havoc_container(r, st)
    return NONE


set_remove = set_discard


def set_union(I, r, h, a, k, st, fr, node):
    n = list_copy(I, r, h, a, k, st, fr, node)
    set_update(I, n, st.heap[n], a, k, st, fr, node)
    return n


def set_difference(I, r, h, a, k, st, fr, node):
    return I.filter_items(r, st, fr, node, lambda v, s: bnot(I.contains(v, a[0], s)), "set")


def set_intersection(I, r, h, a, k, st, fr, node):
    return I.filter_items(r, st, fr, node, lambda v, s: I.contains(v, a[0], s), "set")


def _subset(I, x, y, st, fr, node):
    its, od = I.as_items(x, st, fr, node)

    def item(it):
        g = it.args[0].args[0] if it.args and isinstance(it.args[0], T) and it.args[0].op == "b" else TRUE
        if it.op == "one":
            return band(g, bnot(I.contains(val_of(it.args[1]), y, st)))
        if it.op == "each":
            return band(g, exists(it.args[1], it.args[2], bor(*[item(i) for i in it.args[3]])))
        src = it.args[1] if it.op == "splat" else it
        e = I.elem_of(src)
        return band(g, exists(e, src, bnot(I.contains(e, y, st))))

    return bnot(bor(*[item(i) for i in its]))


def set_issubset(I, r, h, a, k, st, fr, node):
    return bval(_subset(I, r, a[0], st, fr, node))


def set_issuperset(I, r, h, a, k, st, fr, node):
    return bval(_subset(I, a[0], r, st, fr, node))


def dict_get(I, r, h, a, k, st, fr, node):
    d = a[1] if len(a) > 1 else NONE
    outs = []
    for g, l in alts(a[0]):
        v = I.dict_get(r, l, st, fr, node, d)
        outs += [(band(g, g2), l2) for g2, l2 in alts(v)]
    return gate(outs)


def dict_setdefault(I, r, h, a, k, st, fr, node):
    d = a[1] if len(a) > 1 else NONE
    inn = I.contains(a[0], r, st)
    v = I.dict_get(r, a[0] if isinstance(a[0], T) else I.freeze(a[0], st), st, fr, node, d)
    st.heap[r] = h.with_(items=h.items + (mk("kv", bterm(bnot(inn)), gterm(a[0]), gterm(d)),))
    return v


def entries(I, r, h, st, conv):
    """what the entries of a dict yield, one per key: the last value stored for it, where the key was first stored"""
    its = h.items
    if len(its) <= 1 and all(i.op == "kv" for i in its) or all(i.op == "kv" and is_const(i.args[1]) for i in its) and len({i.args[1] for i in its}) == len(its):
        return [conv(i.args[0].args[0], val_of(i.args[1]), val_of(i.args[2])) for i in its]
    if all(i.op == "kv" for i in its) and len(its) <= 16:
        out = []
        for n, i in enumerate(its):
            k, g, v = val_of(i.args[1]), i.args[0].args[0], val_of(i.args[2])
            for j in its[:n]:
                g = band(g, bnot(band(j.args[0].args[0], I.eq(k, val_of(j.args[1]), st))))
            for j in its[n + 1:]:
                v = vite(band(j.args[0].args[0], I.eq(k, val_of(j.args[1]), st)), val_of(j.args[2]), v)
            if g != FALSE:
                out.append(conv(g, k, v))
        return out

    def each(i):
        if i.op == "kv":
            return conv(i.args[0].args[0], val_of(i.args[1]), val_of(i.args[2]))
        return mk("each", i.args[0], i.args[1], i.args[2], tuple(each(x) for x in i.args[3]))

    if len(its) == 1 and its[0].op == "each" and len(its[0].args[3]) == 1 and its[0].args[3][0].op == "kv" \
            and _tells_apart(val_of(its[0].args[3][0].args[1]), its[0].args[1], its[0].args[2]):
        return [each(its[0])]
    return None


def members(I, h, st):
    """the members of a set, each once (None: which of them are the same is not known)"""
    its = h.items
    if all(i.op == "one" for i in its) and len(its) <= 8:
        out = []
        for n, i in enumerate(its):
            k, g = val_of(i.args[1]), i.args[0].args[0]
            for j in its[:n]:
                g = band(g, bnot(band(j.args[0].args[0], I.eq(k, val_of(j.args[1]), st))))
            if g != FALSE:
                out.append(mk("one", bterm(g), i.args[1]))
        return out
    if len(its) == 1 and its[0].op == "splat":
        src = its[0].args[1]
        return its if src.op == "range" or src.ty is not None and any(x[0] in ("set", "dict") for x in src.ty) else None
    if len(its) == 1 and its[0].op == "each" and len(its[0].args[3]) == 1 and its[0].args[3][0].op == "one" \
            and _tells_apart(val_of(its[0].args[3][0].args[1]), its[0].args[1], its[0].args[2]):
        return its
    return None


def _tells_apart(key, e, src):
    """different entries of the source have different keys"""
    if key is e:
        return src.op == "range" or src.ty is not None and any(x[0] in ("set", "dict") for x in src.ty) or e.ty is not None and all(x[0] == "cls" for x in e.ty)
    return isinstance(key, T) and key.op == "idx" and key.args[0] is e


def dict_items(I, r, h, a, k, st, fr, node):
    its = entries(I, r, h, st, lambda g, key, v: one(g, I.tuple_(st, [key, v])))
    return I.new_list(st, [splat(mk("opaque", "items", I.freeze(r, st)))] if its is None else its)


def dict_keys(I, r, h, a, k, st, fr, node):
    its = entries(I, r, h, st, lambda g, key, v: one(g, key))
    return I.new_list(st, [splat(mk("opaque", "keys", I.freeze(r, st)))] if its is None else its)


def dict_values(I, r, h, a, k, st, fr, node):
    its = entries(I, r, h, st, lambda g, key, v: one(g, v))
    return I.new_list(st, [splat(mk("opaque", "values", I.freeze(r, st)))] if its is None else its)


def dict_update(I, r, h, a, k, st, fr, node):
    items = list(h.items)
    if a:
        d = b_dict(I, a, {}, st, fr, node)
        items += list(st.heap[d].items)
    items += [mk("kv", bterm(TRUE), C(n), gterm(v)) for n, v in k.items() if n != "**"]
    st.heap[r] = st.heap[r].with_(items=tuple(items))
    return NONE


def dict_pop(I, r, h, a, k, st, fr, node):
    I.oid += 1
    t = mk("opaque", "dpop", I.oid, ty=I._dict_vty(h))
    I._havoc_container(r, st)
    return t


# ---- constructed xml elements ----------------------------------------------


def xml_append(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(items=h.items + (one(TRUE, a[0]),))
    return NONE


def xml_extend(I, r, h, a, k, st, fr, node):
    its, od = I.as_items(a[0], st, fr, node)
    st.heap[r] = h.with_(items=h.items + tuple(its))
    return NONE


def xml_insert(I, r, h, a, k, st, fr, node):
    if isinstance(a[0], T) and a[0] is C(0):
        st.heap[r] = h.with_(items=(one(TRUE, a[1]),) + h.items)
    else:
        st.heap[r] = h.with_(items=h.items + (splat(mk("opaque", "insert")),))
    return NONE


def xml_set(I, r, h, a, k, st, fr, node):
    st.heap[r] = h.with_(extra=h.extra + (mk("kv", bterm(TRUE), gterm(a[0]), gterm(a[1])),))
    return NONE


def xml_get(I, r, h, a, k, st, fr, node):
    return mk("xattr", I.freeze(r, st), I.freeze(a[0], st), ty=opt(T_STR))


def xml_getroottree(I, r, h, a, k, st, fr, node):
    return mk("roottree", I.freeze(r, st), ty=T_TREE)
