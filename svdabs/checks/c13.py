"""Comparison of the ordering (sort keys, direction, stability) of every list of the finished device with the reference order."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    p.whole(chk, "order", ("value",), keep=lambda d: "<order>" in d.path)
    r.finish(chk, "resolved-order")
    p.enumerated(chk, "value-order", keep=lambda d: "<order>" in d.path)
    p.elements(chk, "element-order", observe=("value",), keep=lambda d: "<order>" in d.path)
