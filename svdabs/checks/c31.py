"""Imports, library names and syntax of every module against the dependencies and the interpreter versions the package declares."""
import sys

from .. import packaging

LEVEL = "other"
ASSUMPTIONS = ["a distribution provides the module of its name, known exceptions apart", "the table of names the standard library gained since 3.10"]


def check(chk):
    chk._guarded("declared", "declared requirements", lambda: run(chk))


def run(chk):
    pr = packaging.project(chk.root)
    if not pr:
        return chk.missing("declared", "pyproject.toml")
    chk.anchors_found += 1
    have = packaging.provided(pr.get("dependencies", []))
    low = packaging.minimum(pr.get("requires-python"))
    for m in chk.prog.modules.values():
        guarded = packaging.guards(m.tree)
        seen = set()
        for n, name in packaging.imports(m):
            top = name.split(".")[0]
            imp = type(n).__name__ in ("Import", "ImportFrom")
            if imp and id(n) not in guarded:
                if top == "svdsuite" or top in have or top.lower() in have:
                    chk.ok("dependencies")
                elif top in sys.stdlib_module_names or top in packaging.REMOVED:
                    chk.ok("dependencies")
                elif (m.rel, top) not in seen:
                    seen.add((m.rel, top))
                    chk.bad("dependencies", f"{m.rel}: {top}", f"{m.rel}:{n.lineno}", f"{top} is imported, but no declared dependency provides it")
            if low and id(n) not in guarded:
                v = packaging.too_new(name, low)
                if v is not None and (m.rel, name) not in seen:
                    seen.add((m.rel, name))
                    chk.bad("interpreter", f"{m.rel}: {name}", f"{m.rel}:{n.lineno}", f"{name} exists from Python {v[0]}.{v[1]}, {low[0]}.{low[1]} is declared")
                elif imp:
                    chk.ok("interpreter")
                if imp and top in packaging.REMOVED and (m.rel, top) not in seen:
                    seen.add((m.rel, top))
                    chk.bad("interpreter", f"{m.rel}: {top}", f"{m.rel}:{n.lineno}", f"{top} was removed in Python {packaging.REMOVED[top]}")
        if low:
            for line, what in packaging.syntax(m, low):
                chk.bad("syntax", f"{m.rel}: {what}", f"{m.rel}:{line}", f"not read by Python {low[0]}.{low[1]}, which is declared")
            chk.ok("syntax")
    chk.functions.update(f.qual for f in chk.prog.funcs.values())
    chk.sample({"dependencies": sorted(have), "oldest interpreter": low, "modules": len(chk.prog.modules)})
