"""Gated value-flow comparison of every address and extent in the finished device, at two nesting depths with induction for deeper ones, with the reference arithmetic."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the resolved elements handed over by the resolver are arbitrary']


def check(chk):
    KEEP = p.about("base_address", "address_offset", "end_address", "end_address_effective", "peripheral_size", "peripheral_size_effective", "cluster_size")
    p.whole(chk, "addresses", ("value",), keep=KEEP, rec=2)
    p.steps(chk, "extents", observe=("value",), keep=KEEP)
    p.elements(chk, "element-addresses", observe=("value",), only=("peripheral", "cluster", "register"), keep=p.about("base_address", "address_offset"))
    r.one(chk, "replicas")
