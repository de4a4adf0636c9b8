"""What the package offers to its users."""
import ast

INTERNAL = {"ResolverGraphException"}  # broken invariants of the resolver's own graph


def exported(prog):
    """classes and functions that the package's __init__ re-exports"""
    m = prog.modules.get("svdsuite")
    out = []
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                r = prog.lookup(m, a.asname or a.name)
                if r and r[0] in ("class", "func"):
                    out.append(r[1])
    return out


def allowed(prog):
    """names of the exception classes users know about"""
    out = set()
    for c in exported(prog):
        if hasattr(c, "methods") and prog.base_names(c) & {"Exception", "BaseException", "Warning"}:
            out.add(c.qual)
    out |= {c.qual for c in prog.classes.values() if c.name in INTERNAL}
    return out


def public(p2):
    """public methods (constructors included) of exported classes and exported functions"""
    by = {id(f.node): f for f in p2.funcs}
    out = []
    for c in exported(p2.prog):
        if not hasattr(c, "methods"):
            out.append(by.get(id(c.node)))
        elif not p2.prog.base_names(c) & {"Exception", "BaseException"}:
            out += [by.get(id(m.node)) for k in p2.prog.mro(c) for n, m in k.methods.items() if n == "__init__" or not n.startswith("_")]
    return [f for f in out if f is not None]
