"""The comparisons of the resolution stage."""

GRAPH = ["ResolverGraph." + n for n in (
    "add_root add_element_child add_edge add_placeholder get_placeholders get_placeholder_co_parent get_element_parents "
    "get_element_childrens get_element_siblings remove_placeholder remove_node has_incoming_edge_of_types "
    "get_topological_sorted_nodes get_base_element_node remove_edge update_edge get_placeholder_child get_placeholder_parent "
    "replicate_descendants get_unprocessed_root_nodes get_unprocessed_nodes bottom_up_node_traversal").split()]
WRITES = ["ResolverGraph." + n for n in (
    "add_root add_element_child add_edge add_placeholder remove_placeholder remove_node remove_edge update_edge "
    "replicate_descendants bottom_up_node_traversal").split()]
STAGE = ["Process._extract_and_process_dimension"] + [f"Process._process_{k}" for k in (
    "peripheral", "cluster", "register", "field", "enumerated_value_container")]
WRAPPED = ("LoopException", "CycleException", "UnprocessedNodesException", "EnumeratedValueContainerException")
ALL = ("value", "raises", "store", "trace")
RX = ["mutate", "add_node", "add_edge", "remove_node", "remove_edge", "update_edge", "PyDiGraph", "subgraph",
      "lexicographical_topological_sort"]


def logger(chk):
    k = chk.prog.cls("ResolverLogger")
    return [f"ResolverLogger.{n}" for n in k.methods if n.startswith("log")] if k is not None else []


def there(chk, rule, names):
    ok = [n for n in names if chk.func(n)]
    for n in names:
        if n not in ok:
            chk.missing(rule, n)
    return len(ok) == len(names)


def methods(chk, rule, *triples, more=(), observe=ALL):
    for actual, ref, cut in triples:
        cut = list(cut) + list(more)
        if there(chk, rule, cut + GRAPH):
            chk.equiv(rule, actual, ref, opaque=GRAPH + STAGE + cut + logger(chk), traced=WRITES + list(cut), observe=observe)
            chk.equiv(rule, actual, ref, opaque=GRAPH + STAGE + cut + logger(chk), observe=("raises",), exc_only=WRAPPED)


def start(chk, rule):
    methods(chk, rule, ("Resolver._initialization", "specs.resolver.start", ()))


def references(chk, rule):
    """which element a derivedFrom means"""
    methods(chk, rule,
            ("Resolver._resolve_placeholder", "specs.resolver.resolve_placeholder", ["Resolver._derived_from_path_resolving"]),
            ("Resolver._resolve_placeholders", "specs.resolver.all_placeholders", ["Resolver._resolve_placeholder"]),
            ("Resolver._derived_from_path_resolving", "specs.resolver.by_path", ()))


def one(chk, rule):
    methods(chk, rule, ("Resolver._process_node", "specs.resolver.process_node", ()))


def order(chk, rule):
    """rounds, what is processed in one, and the order in it"""
    cut = ["Resolver._initialization", "Resolver._resolve_placeholders", "Resolver._process_node", "Resolver._finalize_processing"]
    more = ["Resolver._get_topological_sorted_processable_nodes", "ResolverGraph.get_unprocessed_nodes", "Resolver._get_unresolved_placeholders_info"]
    if there(chk, rule, cut + more):
        for kw in ({}, {"observe": ("raises",), "exc_only": WRAPPED}):
            chk.loop(rule, "Resolver.resolve_peripherals", "specs.resolver.rounds_start", "specs.resolver.rounds_step", "specs.resolver.rounds_end",
                     opaque=cut + more + logger(chk), traced=cut, **kw)
    if there(chk, rule, GRAPH):
        chk.closure(rule, "Resolver._find_processable_nodes", "specs.resolver.processable_start", "specs.resolver.processable_step", opaque=GRAPH)
        chk.equiv(rule, "Resolver._get_topological_sorted_processable_nodes", "specs.resolver.processable",
                  opaque=["Resolver._find_processable_nodes"] + GRAPH + logger(chk))
        chk.equiv(rule, "ResolverGraph.get_topological_sorted_nodes", "specs.graph.derived_last", observe=("raises", "trace"), traced=RX,
                  opaque=["ResolverGraph.has_incoming_edge_of_types"])


def finish(chk, rule):
    """what is put together from the processed elements"""
    cut = ["Resolver._calculate_size", "Resolver._get_parent_size_recursively", "Resolver._finalize_node"]
    if there(chk, rule, cut):
        methods(chk, rule, ("Resolver._finalize_node", "specs.resolver.finalize", ["Resolver._calculate_size"]))
        methods(chk, rule, ("Resolver._calculate_size", "specs.resolver.widest", ["Resolver._get_parent_size_recursively"]))
        for n in ("one", "two"):
            chk.equiv(rule, f"specs.resolver.code_size_of_{n}", f"specs.resolver.want_size_of_{n}", observe=("value", "raises"),
                      opaque=GRAPH + ["Resolver._get_parent_size_recursively"])
    methods(chk, rule, ("Resolver._get_parent_size_recursively", "specs.resolver.inherited_size", ()))
    chk.equiv(rule, "Resolver._finalize_processing", "specs.resolver.finish", opaque=GRAPH, traced=WRITES, observe=ALL)
    chk.loop(rule, "ResolverGraph.bottom_up_node_traversal", "specs.graph.finish_start", "specs.graph.finish_step",
             "specs.graph.finish_end", traced=RX)


def graph(chk, rule):
    G = "ResolverGraph."
    for a, b in (("__init__", "construct"), ("add_root", "add_root"), ("add_element_child", "add_element_child"), ("add_edge", "add_edge"),
                 ("add_placeholder", "add_placeholder"), ("get_placeholder_co_parent", "co_parent"), ("get_element_parents", "parents"),
                 ("get_element_childrens", "children"), ("get_element_siblings", "siblings"),
                 ("remove_placeholder", "remove_placeholder"), ("has_incoming_edge_of_types", "has_incoming"),
                 ("get_base_element_node", "base"), ("remove_edge", "remove_edge"), ("update_edge", "update_edge"),
                 ("get_placeholder_child", "placeholder_child"), ("get_placeholder_parent", "placeholder_parent"),
                 ("get_unprocessed_root_nodes", "unprocessed_roots"), ("get_unprocessed_nodes", "unprocessed_nodes"),
                 ("_create_replicated_node", "replica")):
        chk.equiv(rule, G + a, "specs.graph." + b, traced=RX, observe=ALL)
    if there(chk, rule, [G + "_create_replicated_node"]):
        chk.loop(rule, G + "replicate_descendants", "specs.graph.replicate_start", "specs.graph.replicate_step",
                 "specs.graph.replicate_end", traced=RX, opaque=[G + "_create_replicated_node"])
