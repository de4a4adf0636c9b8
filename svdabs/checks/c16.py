"""Gated value-flow comparison of the whole finished device with the reference, for arbitrary resolved elements."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    p.whole(chk, "carried-over", ("value",))
    p.whole(chk, "untouched", ("store",))
    p.elements(chk, "stated", observe=("value", "store"))
    p.enumerated(chk, "values")
    r.one(chk, "resolved")
    r.finish(chk, "content")
