"""Gated value-flow comparison of the enumerated values of a container (wildcards, duplicates, default expansion, order, refusals, warnings) with the reference, and of what the finished device keeps of them."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['the parsed container and the bit range are arbitrary']


def check(chk):
    p.enumerated(chk, "enumerated")
    p.whole(chk, "kept-values", ("value",), keep=lambda d: ".enumerated_value" in d.path)
    p.whole(chk, "dropped-values", ("warns", "raises"))
    r.finish(chk, "containers")
