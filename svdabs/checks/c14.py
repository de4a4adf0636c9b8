"""Comparison of which elements the finished device contains, and of the condition under which processing warns, with the reference, for arbitrary resolved elements."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    p.whole(chk, "membership", ("value",), keep=p.membership)
    p.whole(chk, "warnings", ("warns",))
    p.dimensions(chk, "dimension-warnings")
    p.elements(chk, "element-warnings", observe=("warns",))
    p.elements(chk, "element-content", observe=("value",), keep=p.membership)
    p.enumerated(chk, "values")
    p.overlaps(chk, "overlap-warnings")
    r.one(chk, "replicas")
    r.finish(chk, "resolved-content")
