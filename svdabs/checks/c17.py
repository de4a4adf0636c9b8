"""Comparison of the overlap warnings, as a function of the finished elements, with the reference; the transitive closure of the alternate relation is cut at its work list and start, successors and termination are compared separately."""
from . import _process as p

LEVEL = "other"
ASSUMPTIONS = ['finished elements are arbitrary']


def check(chk):
    p.overlaps(chk, "overlap")
    p.whole(chk, "applied", ("trace",), traced=p.OPAQUE[1:])
