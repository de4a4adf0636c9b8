from ..flow import own_nodes
import ast


def reachable(p2, c):
    """ids of the functions the methods of a class may run, its own included"""
    todo = [f for f in p2.funcs if f.cls is c]
    out = {id(f.node) for f in todo}
    while todo:
        f = todo.pop()
        nxt = [g for g in p2.funcs if g.parent is not None and g.parent.node is f.node]
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                gs, exact = p2.callees(f, n)
                if exact:
                    nxt += gs
            elif isinstance(n, (ast.Attribute, ast.Name)):
                nxt += p2.references(f, n)
        for g in nxt:
            if id(g.node) not in out:
                out.add(id(g.node))
                todo.append(g)
    return out
