"""State and order analysis over every function: writes that outlive a run (module and class variables, cached mutable results,
mutable defaults, process-wide settings), and places where the order of a set or a value that differs between runs is used."""
from ..flow import Order, Program2, Shared

LEVEL = "other"
ASSUMPTIONS = ["annotations state the classes of values", "rustworkx keeps insertion order"]


def check(chk):
    chk._guarded("state", "shared state", lambda: run(chk, "state", Shared))
    chk._guarded("order", "order", lambda: run(chk, "order", Order))


def run(chk, rule, analysis):
    a = analysis(Program2(chk.prog))
    chk.anchors_found += 1
    for loc, qual, what, sure in a.found:
        if sure:
            chk.bad(rule, f"{qual.split('.', 1)[-1]}: {what}", loc, what)
        else:
            chk.unk(rule, f"{loc} {qual}", what)
    chk.functions.update(f.qual for f in a.p2.funcs)
    chk.ok(rule, a.places - len(a.found))
    chk.sample({"rule": rule, "functions": len(a.p2.funcs), "places": a.places})
