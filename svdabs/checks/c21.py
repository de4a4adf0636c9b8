"""Gated value-flow comparison of what one element becomes and what it gets from its base, down to the calls on the underlying graph, with the reference; loops that run until nothing changes are cut at their state."""
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ["rustworkx behaves as documented", "reads of the graph are compared as reads of the same state"]


def check(chk):
    r.one(chk, "one")
    r.graph(chk, "graph")
