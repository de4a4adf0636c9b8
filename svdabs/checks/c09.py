"""Gated value-flow comparison of the inherited attributes of every element, at two nesting depths with induction for deeper ones, with the reference inheritance, for arbitrary resolved elements."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    ATTRS = ("size", "access", "protection", "reset_value", "reset_mask", "write_constraint")
    p.whole(chk, "inherited-values", ("value",), keep=p.about(*ATTRS), rec=2)
    p.whole(chk, "inherited-stores", ("store",), rec=2)
    p.elements(chk, "stated", observe=("value",), keep=p.about(*ATTRS))
    r.finish(chk, "content-size")
