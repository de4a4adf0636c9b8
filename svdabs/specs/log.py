"""Without a file for it, the resolver log does nothing (interpreted by the analysis, never executed)."""
from svdsuite.resolve.graph import ResolverGraph
from svdsuite.resolve.graph_elements import ElementNode
from svdsuite.resolve.logger import ResolverLogger


def want(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    return graph


def create(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph)
    return graph


def log_init_constructed_graph(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_init_constructed_graph()
    return graph


def log_parent_child_relationships_for_placeholders(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_parent_child_relationships_for_placeholders()
    return graph


def log_repeating_steps_start(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_repeating_steps_start()
    return graph


def log_round_start(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_round_start()
    return graph


def log_round_end(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_round_end()
    return graph


def log_loop_detected(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_loop_detected()
    return graph


def log_repeating_steps_finished(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_repeating_steps_finished()
    return graph


def log_resolved_placeholder(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_resolved_placeholder(text)
    return graph


def log_resolve_placeholder_finished(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_resolve_placeholder_finished()
    return graph


def log_processable_elements(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_processable_elements(nodes)
    return graph


def log_finalize(graph: ResolverGraph, nodes: list[ElementNode], text: str):
    ResolverLogger(None, graph).log_finalize()
    return graph
