"""Comparison of the condition under which processing refuses a description with the reference, for arbitrary resolved elements and for each element resolved."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    p.whole(chk, "refusal", ("raises",))
    p.elements(chk, "element-refusal", observe=("raises",))
    p.dimensions(chk, "dimension-refusal")
    p.enumerated(chk, "value-refusal")
    r.one(chk, "resolution-refusal")
    r.finish(chk, "content-refusal")
