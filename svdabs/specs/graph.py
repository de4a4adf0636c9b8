"""Reference semantics of the element graph, in terms of the calls on the underlying directed graph."""
import copy
from collections import defaultdict, deque
from typing import Callable, DefaultDict, Deque

import rustworkx as rx

from svdsuite.resolve.exception import ResolverGraphException
from svdsuite.resolve.graph import ResolverGraph
from svdsuite.resolve.graph_elements import EdgeType, ElementNode, NodeStatus, PlaceholderNode, ResolverNode


def add_root(self: ResolverGraph, root: ElementNode):
    self._node_to_rx_index[root] = self._graph.add_node(root)


def add_element_child(self: ResolverGraph, parent: ElementNode, child: ElementNode, edge_type: EdgeType):
    i = self._graph.add_node(child)
    self._graph.add_edge(self._node_to_rx_index[parent], i, edge_type)
    self._node_to_rx_index[child] = i


def add_edge(self: ResolverGraph, parent: ElementNode, child: ElementNode | PlaceholderNode, edge_type: EdgeType):
    try:
        self._graph.add_edge(self._node_to_rx_index[parent], self._node_to_rx_index[child], edge_type)
    except rx.DAGWouldCycle as e:
        raise ResolverGraphException("cycle") from e


def add_placeholder(self: ResolverGraph, placeholder: PlaceholderNode, derivation_node: ElementNode):
    i = self._graph.add_node(placeholder)
    self._graph.add_edge(i, self._node_to_rx_index[derivation_node], EdgeType.PLACEHOLDER)
    self._node_to_rx_index[placeholder] = i
    self._placeholders.append(placeholder)


def co_parent(self: ResolverGraph, placeholder: PlaceholderNode):
    derived = self._graph.successors(self._node_to_rx_index[placeholder])
    if not derived or len(derived) != 1:
        raise ResolverGraphException("child")
    parents = [p for p in self._graph.predecessors(self._node_to_rx_index[derived[0]]) if isinstance(p, ElementNode)]
    if not parents:
        return None
    if len(parents) != 1:
        raise ResolverGraphException("parents")
    return parents[0]


def parents(self: ResolverGraph, node: ElementNode):
    return [self._graph[i] for i, _, kind in self._graph.in_edges(self._node_to_rx_index[node])
            if isinstance(self._graph[i], ElementNode) and (kind == EdgeType.CHILD_UNRESOLVED or kind == EdgeType.CHILD_RESOLVED)]


def children(self: ResolverGraph, node: ElementNode):
    return [self._graph[i] for _, i, kind in self._graph.out_edges(self._node_to_rx_index[node])
            if isinstance(self._graph[i], ElementNode) and (kind == EdgeType.CHILD_UNRESOLVED or kind == EdgeType.CHILD_RESOLVED)]


def siblings(self: ResolverGraph, node: ElementNode):
    above = self.get_element_parents(node)
    if not above:
        return []
    return [c for c in self._graph.successors(self._node_to_rx_index[above[0]]) if isinstance(c, ElementNode) and c != node]


def remove_placeholder(self: ResolverGraph, placeholder: PlaceholderNode):
    self._graph.remove_node(self._node_to_rx_index[placeholder])
    del self._node_to_rx_index[placeholder]
    self._placeholders.remove(placeholder)


def has_incoming(self: ResolverGraph, node: ElementNode, edge_types_to_find: set[EdgeType]):
    return any(kind in edge_types_to_find for _, _, kind in self._graph.in_edges(self._node_to_rx_index[node]))


def base(self: ResolverGraph, derive_node: ElementNode):
    for i, _, kind in self._graph.in_edges(self._node_to_rx_index[derive_node]):
        if kind == EdgeType.DERIVE:
            return self._graph[i]
    return None


def remove_edge(self: ResolverGraph, parent: ElementNode, child: ElementNode):
    self._graph.remove_edge(self._node_to_rx_index[parent], self._node_to_rx_index[child])


def update_edge(self: ResolverGraph, parent: ElementNode, child: ElementNode, edge_type: EdgeType):
    self._graph.update_edge(self._node_to_rx_index[parent], self._node_to_rx_index[child], edge_type)


def placeholder_child(self: ResolverGraph, placeholder: PlaceholderNode):
    found = [self._graph[i] for _, i, kind in self._graph.out_edges(self._node_to_rx_index[placeholder])
             if isinstance(self._graph[i], ElementNode) and kind == EdgeType.PLACEHOLDER]
    if not found or len(found) != 1:
        raise ResolverGraphException("child")
    return found[0]


def placeholder_parent(self: ResolverGraph, placeholder: PlaceholderNode):
    found = [self._graph[i] for i, _, kind in self._graph.in_edges(self._node_to_rx_index[placeholder])
             if isinstance(self._graph[i], ElementNode) and kind == EdgeType.PLACEHOLDER]
    if not found or len(found) != 1:
        raise ResolverGraphException("parent")
    return found[0]


def replica(self: ResolverGraph, existing_node: ResolverNode):
    """replicas share no element value with the original"""
    if isinstance(existing_node, ElementNode):
        return ElementNode(existing_node.name, existing_node.level, existing_node.status, existing_node.parsed,
                           copy.copy(existing_node.processed_or_none), existing_node.is_dim_template)
    if isinstance(existing_node, PlaceholderNode):
        return PlaceholderNode(existing_node.derive_path)
    raise ResolverGraphException("type")


def unprocessed(node: ResolverNode):
    return isinstance(node, ElementNode) and node.status == NodeStatus.UNPROCESSED


def unprocessed_roots(self: ResolverGraph):
    found = self._graph.filter_nodes(unprocessed)
    self._unprocessed_rx_indicies = list(found)
    return [self._graph[i] for i in found if any(kind == EdgeType.CHILD_RESOLVED for _, _, kind in self._graph.in_edges(i))]


def unprocessed_nodes(self: ResolverGraph):
    return {self._graph[i] for i in self._unprocessed_rx_indicies}


def construct(self: ResolverGraph):
    """the underlying graph refuses edges that close a cycle"""
    self._graph = rx.PyDiGraph(check_cycle=True)
    self._node_to_rx_index = {}
    self._placeholders = []
    self._unprocessed_rx_indicies = []


def derived_last(self: ResolverGraph, nodes: list[ElementNode]):
    def key(node: ResolverNode):
        return "B" if self.has_incoming_edge_of_types(node, {EdgeType.DERIVE}) else "A"

    part = self._graph.subgraph([self._node_to_rx_index[n] for n in nodes if n.status == NodeStatus.UNPROCESSED])
    return rx.lexicographical_topological_sort(part, key=key)


# replication: everything reachable from the base other than through a derivation, its edges among itself, and the
# derivations into it


def replicate_start(self: ResolverGraph, source_node: ElementNode, target_node: ElementNode):
    source = self._node_to_rx_index[source_node]
    return set(), source, [source], set()


def replicate_step(self: ResolverGraph, source_node: ElementNode, target_node: ElementNode, rx_indices_to_replicate: set[int],
                   source_rx_index: int, stack: list[int], visited: set[int]):
    if not stack:
        return None
    i = stack.pop()
    if i in visited:
        return rx_indices_to_replicate, source_rx_index, stack, visited
    visited.add(i)
    for _, child, kind in self._graph.out_edges(i):
        if kind != EdgeType.DERIVE:
            rx_indices_to_replicate.add(child)
            stack.append(child)
    return rx_indices_to_replicate, source_rx_index, stack, visited


def replicate_end(self: ResolverGraph, source_node: ElementNode, target_node: ElementNode, rx_indices_to_replicate: set[int],
                  source_rx_index: int):
    new = {}
    for i in rx_indices_to_replicate:
        node = self._create_replicated_node(self._graph[i])
        j = self._graph.add_node(node)
        new[i] = j
        self._node_to_rx_index[node] = j
        if isinstance(node, PlaceholderNode):
            self._placeholders.append(node)
    for i in rx_indices_to_replicate:
        for _, child, kind in self._graph.out_edges(i):
            if child in rx_indices_to_replicate:
                self._graph.add_edge(new[i], new[child], kind)
        for parent, _, kind in self._graph.in_edges(i):
            if kind == EdgeType.DERIVE:
                self._graph.add_edge(parent, new[i], kind)
    target = self._node_to_rx_index[target_node]
    for _, child, _ in self._graph.out_edges(source_rx_index):
        if child not in rx_indices_to_replicate:
            continue
        j = new[child]
        if isinstance(self._graph[j], PlaceholderNode):
            self._graph.add_edge(target, j, EdgeType.PLACEHOLDER)
        elif source_node.status == NodeStatus.PROCESSED:
            self._graph.add_edge(target, j, EdgeType.CHILD_RESOLVED)
        else:
            self._graph.add_edge(target, j, EdgeType.CHILD_UNRESOLVED)


# finishing: every element after all its children


def finish_start(self: ResolverGraph, finalize_node_cb: Callable[[ElementNode, list[ElementNode]], None]):
    pending_children: dict[ElementNode, int] = {}
    children_of_node: DefaultDict[ElementNode, list[ElementNode]] = defaultdict(list)
    parents_of_node: DefaultDict[ElementNode, list[ElementNode]] = defaultdict(list)
    for i in self._graph.node_indices():
        node = self._graph[i]
        below = self._graph.successors(i)
        children_of_node[node].extend(below)
        pending_children[node] = len(below)
        for child in below:
            parents_of_node[child].append(node)
    queue = deque()
    for node, n in pending_children.items():
        if n == 0:
            queue.append(node)
    return children_of_node, parents_of_node, pending_children, queue


def finish_step(self: ResolverGraph, finalize_node_cb: Callable[[ElementNode, list[ElementNode]], None], children_of_node: DefaultDict[ElementNode, list[ElementNode]],
                parents_of_node: DefaultDict[ElementNode, list[ElementNode]], pending_children: dict[ElementNode, int], queue: Deque[ElementNode]):
    if not queue:
        return None
    node = queue.popleft()
    below = children_of_node[node]
    if below:
        finalize_node_cb(node, below)
    for parent in parents_of_node[node]:
        pending_children[parent] -= 1
        if pending_children[parent] == 0:
            queue.append(parent)
    return children_of_node, parents_of_node, pending_children, queue


def finish_end(self: ResolverGraph, finalize_node_cb: Callable[[ElementNode, list[ElementNode]], None]):
    return None
