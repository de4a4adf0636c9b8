"""Gated value-flow comparison of every attribute of a resolved peripheral, cluster, register and field with the reference precedence of own value over base value, for an arbitrary parsed element, base and dimension index."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the parsed element and the base element are arbitrary']


def check(chk):
    p.elements(chk, "own-over-base")
    r.one(chk, "base-used")
