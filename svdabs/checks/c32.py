"""Effect analysis of everything the resolver log runs (no writes to graph, nodes, elements or resolver), and gated value-flow
of each of its methods without a log file against doing nothing."""
from ..flow import Effects, Program2
from ._log import reachable

LEVEL = "other"
ASSUMPTIONS = ["annotations state the classes of values", "drawing the graph does not change it"]

LOG = "svdsuite.resolve.logger"
KEPT = ("svdsuite.resolve.graph", "svdsuite.resolve.graph_elements", "svdsuite.resolve.resolver", "svdsuite.process", "svdsuite.model.parse",
        "svdsuite.model.process")

METHODS = ["log_init_constructed_graph", "log_parent_child_relationships_for_placeholders", "log_repeating_steps_start", "log_round_start",
           "log_round_end", "log_loop_detected", "log_repeating_steps_finished", "log_resolved_placeholder", "log_resolve_placeholder_finished",
           "log_processable_elements", "log_finalize"]


def check(chk):
    c = chk.prog.classes.get(LOG + ".ResolverLogger")
    if c is None:
        return chk.missing("inert", LOG + ".ResolverLogger")
    chk._guarded("inert", "effects of the log", lambda: effects(chk, c))
    if chk.func("HTMLGenerator.__init__"):
        chk.equiv("silent", "specs.log.create", "specs.log.want",
                  opaque=["HTMLGenerator.__init__"], traced=["HTMLGenerator.__init__"], observe=("value", "raises", "trace"))
    for n in METHODS:
        if chk.func(f"ResolverLogger.{n}"):
            chk.equiv("silent", f"specs.log.{n}", "specs.log.want")


def effects(chk, c):
    p2 = Program2(chk.prog)
    frozen = {k.qual for k in chk.prog.classes.values() if k.module.name in KEPT}
    fs = reachable(p2, c)
    e = Effects(p2, frozen, lambda f: id(f.node) in fs)
    chk.anchors_found += 1
    for (rel, line, what), (f, sure) in sorted(e.found.items()):
        if sure:
            chk.bad("inert", f"{f.qual.split('.', 1)[-1]}: {what}", f"{rel}:{line}", "logging changes the state of the resolver")
        else:
            chk.unk("inert", f"{rel}:{line} {what}", "writes to an object that may belong to the resolver")
    for f in e.funcs:
        if f.cls is c and f.parent is None and f.name != "__init__":
            for p, sure in e.mut[id(f.node)].items():
                if p != "self" and sure:
                    chk.bad("inert", f"{f.qual.split('.', 1)[-1]}: {p}", f.loc(), f"changes its argument {p}, which belongs to the resolver")
            chk.ok("inert")
    chk.functions.update(f.qual for f in e.funcs)
    chk.ok("inert", e.writes - len(e.found))
    chk.sample({"functions": [f.qual for f in e.funcs], "writes": e.writes})
