"""Whether a witness that turns on non-linear arithmetic can be believed: numbers that satisfy it are looked for.

The theory refutes what linear arithmetic and a few facts about `//`, `%`, `min` and powers refute. A witness that
survives may still ask for the impossible (a power equal to a product, say), so it counts only when some assignment
of numbers to the values it speaks of makes all of its arithmetic true (none below zero and
no size zero: no number of a description is). Nothing found: the difference stays undecided."""

import random

from .core import T, aff_parts, cval, is_const

OPS = ("aff", "mod%", "floordiv", "pow2", "mul", "maxn", "abs")
_hard: dict = {}
_leaves: dict = {}


def isop(t):
    return t.op in OPS or t.op == "mcall" and t.args[1] == "bit_length"


def _args(t):
    if t.op == "aff":
        return list(aff_parts(t)[1])
    if t.op == "maxn":
        return list(t.args[1])
    return [x for x in t.args if isinstance(x, T)]


def hard(t, inside=False):
    """an operator whose result the linear rules do not pin down"""
    if not isinstance(t, T) or not isop(t):
        return False
    if t.op in ("maxn", "mcall"):
        return True
    k = (t, inside)
    r = _hard.get(k)
    if r is None:
        if t.op in ("pow2", "mul", "abs") or t.op in ("mod%", "floordiv") and not is_const(t.args[1]):
            r = True
        else:
            r = any(hard(x) for x in _args(t))
        _hard[k] = r
    return r


def leaves(t):
    r = _leaves.get(t)
    if r is None:
        if is_const(t):
            r = frozenset()
        elif isop(t):
            r = frozenset().union(*[leaves(x) for x in _args(t)])
        else:
            r = frozenset((t,))
        _leaves[t] = r
    return r


def value(t, env):
    if is_const(t):
        return cval(t)
    if t.op == "aff":
        k, d = aff_parts(t)
        return k + sum(c * value(x, env) for x, c in d.items())
    if t.op == "mod%":
        return value(t.args[0], env) % value(t.args[1], env)
    if t.op == "floordiv":
        return value(t.args[0], env) // value(t.args[1], env)
    if t.op == "pow2":
        n = value(t.args[0], env)
        if n > 200:
            raise ArithmeticError
        return 2 ** n
    if t.op == "mul":
        r = 1
        for x in t.args:
            r *= value(x, env)
        return r
    if t.op == "maxn":
        return (max if t.args[0] == "max" else min)(value(x, env) for x in t.args[1])
    if t.op == "abs":
        return abs(value(t.args[0], env))
    if t.op == "mcall" and t.args[1] == "bit_length":
        return value(t.args[0], env).bit_length()
    return env[t]


def least(x):
    """sizes are positive, and no other number of a description is below zero"""
    return 1 if x.op == "attr" and str(x.args[1]).lstrip("_").endswith("size") else 0


def _true(a, v, env):
    try:
        n = value(a.args[0], env)
    except (ArithmeticError, TypeError, AttributeError):
        return False
    return ((n == 0) if a.op == "eq0" else (n <= 0)) == v


def trusted(cube, tries=12, steps=60):
    if any(a.op in ("eq", "lt") and any(isinstance(x, T) and hard(x) for x in a.args) for a in cube):
        return False  # compared as if it were not a number
    atoms = [(a, v) for a, v in cube.items() if a.op in ("eq0", "le0")]
    todo = [x for x in atoms if hard(x[0].args[0])]
    if not todo:
        return True
    part, vs = [], set()
    while todo:  # everything said of the values the hard atoms speak of
        part += todo
        for a, _ in todo:
            vs |= leaves(a.args[0])
        todo = [x for x in atoms if x not in part and leaves(x[0].args[0]) & vs]
    try:
        consts = set()
        for a, _ in part:
            _consts(a.args[0], consts)
        cands = sorted({c for c in {s * c + d for c in consts for s in (1, -1) for d in (-1, 0, 1)} if c >= 0} | set(range(10)) | {16, 32, 64, 128, 31, 63})
        rnd = random.Random(7)
        vs = sorted(vs, key=lambda t: t.uid)
        for _ in range(tries):
            env = {x: max(rnd.choice(cands) if _ else 0, least(x)) for x in vs}
            for _s in range(steps):
                bad = [x for x in part if not _true(*x, env)]
                if not bad:
                    return True
                a, v = rnd.choice(bad)
                best = None
                for x in sorted(leaves(a.args[0]), key=lambda t: t.uid):
                    old = env[x]
                    for c in cands + _solve(a, x, env):
                        if c < least(x):
                            continue
                        env[x] = c
                        n = sum(not _true(*y, env) for y in part), rnd.random()
                        if (best is None or n < best[0]) and c != old:
                            best = n, x, c
                    env[x] = old
                if best is None:
                    break
                env[best[1]] = best[2]
    except (TypeError, KeyError):
        pass
    return False


def _solve(a, x, env):
    """values of x at which the atom changes when it is linear in x"""
    k, d = aff_parts(a.args[0])
    c = d.get(x)
    if not c:
        return []
    try:
        rest = k + sum(q * value(y, env) for y, q in d.items() if y is not x)
        z = -rest // c
        return [int(z) + i for i in (-1, 0, 1)]
    except (ArithmeticError, TypeError, ValueError, OverflowError):
        return []


def _consts(t, out):
    if is_const(t):
        if isinstance(cval(t), int) and abs(cval(t)) < 1 << 70:
            out.add(int(cval(t)))
    elif t.op == "aff":
        k, d = aff_parts(t)
        out.add(k)
        for x in d:
            _consts(x, out)
    elif isop(t):
        for x in _args(t):
            _consts(x, out)
