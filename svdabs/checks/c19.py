"""Gated value-flow comparison of the initial element graph and of the resolution of derivedFrom references, down to the calls on the underlying graph, with the reference; loops that run until nothing changes are cut at their state."""
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ["rustworkx behaves as documented", "reads of the graph are compared as reads of the same state"]


def check(chk):
    r.start(chk, "initial-graph")
    r.references(chk, "references")
    r.graph(chk, "graph")
