"""Escape analysis of the package's exceptions over the call graph (types from annotations and constructors, handlers by class
hierarchy): no class that users cannot import from the package leaves a public function."""
from ..flow import Exceptions, Program2
from ._public import allowed, public

LEVEL = "other"
ASSUMPTIONS = ["annotations state the classes of values", "ResolverGraphException reports states of the resolver's graph excluded by C20 and C21"]


def check(chk):
    chk._guarded("escape", "escaping exceptions", lambda: run(chk))


def run(chk):
    p2 = Program2(chk.prog)
    x = Exceptions(p2)
    ok = allowed(chk.prog)
    entries = public(p2)
    if not entries:
        return chk.missing("escape", "public classes")
    chk.anchors_found += 1
    for f in entries:
        chk.functions.add(f.qual)
        for k, (loc, path, sure) in sorted((x.of_func(f) or {}).items()):
            if ok & chk.prog.base_names(chk.prog.classes[k]):
                continue
            what = f"{k.split('.')[-1]} escapes {f.qual.split('.', 1)[-1]}"
            if sure:
                chk.bad("escape", what, loc, "raised here, not translated on the way: " + " > ".join(a.split(".")[-1] for a in path))
            else:
                chk.unk("escape", what, f"{loc}, through a call whose target is not certain")
        chk.ok("escape")
    chk.functions.update(f.qual for f in p2.funcs)
    chk.steps += x.calls + x.sites
    chk.ok("raise sites", x.sites)
    chk.ok("call sites", x.calls)
    chk.sample({"raise sites": x.sites, "call sites": x.calls, "entries": [f.qual for f in entries][:40], "may leave the package": sorted(ok)})
