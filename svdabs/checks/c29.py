"""Effect analysis: origins of every value written to (assignments, deletions, mutating calls, parameters changed by callees) are
traced back; a write to an object of the input model, or to what hangs off one, is a violation."""
from ..flow import Effects, Program2

LEVEL = "other"
ASSUMPTIONS = ["annotations state the classes of values"]

PARSED, PROCESSED = "svdsuite.model.parse", "svdsuite.model.process"
CONVERT = "svdsuite.util.process_parse_model_convert"
STAGES = {
    "processing": (PARSED, lambda m: m not in ("svdsuite.parse", CONVERT, PARSED)),
    "conversion": (PROCESSED, lambda m: m == CONVERT),
    "register map": (PROCESSED, lambda m: m in ("svdsuite.map", "svdsuite.model.map")),
    "serialization": (PARSED, lambda m: m == "svdsuite.serialize"),
}


def check(chk):
    for name, (model, scope) in STAGES.items():
        chk._guarded(name, name, lambda name=name, model=model, scope=scope: run(chk, name, model, scope))


def run(chk, name, model, scope):
    p2 = Program2(chk.prog)
    frozen = {c.qual for c in chk.prog.classes.values() if c.module.name == model}
    if not frozen:
        return chk.missing(name, model)
    e = Effects(p2, frozen, lambda f: scope(f.module.name))
    if not e.funcs:
        return chk.missing(name, "functions of this stage")
    chk.anchors_found += 1
    for (rel, line, what), (f, sure) in sorted(e.found.items()):
        if sure:
            chk.bad(name, f"{f.qual.split('.', 1)[-1]}: {what}", f"{rel}:{line}", "changes an object of the input, or one it refers to")
        else:
            chk.unk(name, f"{rel}:{line} {what}", "writes to an object that may belong to the input")
    chk.functions.update(f.qual for f in e.funcs)
    chk.ok(name, e.writes - len(e.found))
    chk.sample({"stage": name, "classes": len(frozen), "functions": len(e.funcs), "writes": e.writes})
