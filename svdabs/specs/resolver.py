"""Reference semantics of the resolution of derivedFrom and of dimensions over the element graph."""
import copy

from svdsuite.model.parse import (
    SVDCluster, SVDDevice, SVDEnumeratedValueContainer, SVDField, SVDPeripheral, SVDRegister,
)
from svdsuite.model.process import ICluster, IDevice, IField, IPeripheral, IRegister
from svdsuite.model.types import EnumUsageType
from svdsuite.resolve.exception import (
    CycleException, EnumeratedValueContainerException, LoopException, ResolveException, ResolverGraphException,
    UnprocessedNodesException,
)
from svdsuite.resolve.graph_elements import EdgeType, ElementLevel, ElementNode, NodeStatus, PlaceholderNode
from svdsuite.resolve.resolver import Resolver


def kept(nodes):
    return [n.processed for n in nodes if not n.is_dim_template]


def inherited_size(self: Resolver, node: ElementNode) -> int:
    parents = self._resolver_graph.get_element_parents(node)
    if not parents:
        return -1
    parent = parents[0]
    if parent.level == ElementLevel.DEVICE:
        device: SVDDevice = parent.parsed
        return 32 if device.size is None else device.size
    if not isinstance(parent.processed, (IPeripheral, ICluster)):
        raise ResolveException("parent")
    if parent.processed.size is not None:
        return parent.processed.size
    return inherited_size(self, parent)


def widest(self: Resolver, child_nodes: list[ElementNode]) -> int:
    widest_ = -1
    for n in child_nodes:
        if not isinstance(n.processed, (IRegister, ICluster)):
            raise ResolveException("type")
        if n.is_dim_template:
            continue
        size = n.processed.size
        if size is None:
            size = self._get_parent_size_recursively(n)
        elif size % 8:
            size = 0
        if widest_ < size:
            widest_ = size
    if widest_ == -1:
        raise ResolveException("size")
    return widest_


def finalize(self: Resolver, node: ElementNode, child_nodes: list[ElementNode]):
    if node.is_dim_template:
        return
    if node.level == ElementLevel.DEVICE:
        self._peripherals_resolved = sorted(kept(child_nodes), key=lambda p: (p.base_address, p.name))
    elif node.level in (ElementLevel.PERIPHERAL, ElementLevel.CLUSTER):
        element = node.processed
        element.size = self._calculate_size(child_nodes)
        element.registers_clusters = sorted(kept(child_nodes), key=lambda rc: (rc.address_offset, rc.name))
    elif node.level == ElementLevel.REGISTER:
        element = node.processed
        element.fields = sorted(kept(child_nodes), key=lambda f: (f.lsb, f.name))
    elif node.level == ElementLevel.FIELD:
        element = node.processed
        containers = []
        for c in child_nodes:
            containers.append(self._process._process_enumerated_value_container(c.parsed, element.lsb, element.msb))
        usages = [c.usage for c in containers]
        if len(usages) != len(set(usages)) or len(containers) > 2:
            raise EnumeratedValueContainerException("containers")
        if len(containers) == 2 and not set(usages).issubset({EnumUsageType.READ, EnumUsageType.WRITE}):
            raise EnumeratedValueContainerException("usage")
        element.enumerated_value_containers = containers
    else:
        raise ResolveException("level")


# -- one element ----------------------------------------------------------


def base_of(self: Resolver, node: ElementNode):
    base = self._resolver_graph.get_base_element_node(node)
    if base is None:
        raise ResolveException("no base")
    if node.level != base.level:
        raise ResolveException("levels")
    if isinstance(base.processed_or_none, IDevice):
        raise ResolveException("device")
    return base


def adopt(self: Resolver, node: ElementNode, base):
    """the children of a base become children of what derives from it"""
    if base is not None:
        self._resolver_graph.remove_edge(base, node)
        self._resolver_graph.replicate_descendants(base, node)


def element(self: Resolver, index, name, display_name, parsed, base):
    if isinstance(parsed, SVDPeripheral):
        return self._process._process_peripheral(index, name, parsed, base)
    if isinstance(parsed, SVDCluster):
        return self._process._process_cluster(index, name, parsed, base)
    if isinstance(parsed, SVDRegister):
        return self._process._process_register(index, name, display_name, parsed, base)
    if isinstance(parsed, SVDField):
        return self._process._process_field(index, name, parsed, base)
    raise ResolveException("type")


def process_node(self: Resolver, node: ElementNode):
    parsed = node.parsed
    if isinstance(parsed, SVDDevice):
        raise ResolveException("device")
    base = None
    values = None
    if parsed.derived_from is not None:
        base = base_of(self, node)
        values = base.processed_or_none
        if values is None and not isinstance(parsed, SVDEnumeratedValueContainer):
            raise ResolveException("base not processed")
    if isinstance(parsed, SVDEnumeratedValueContainer):
        if base is not None:
            node.parsed = base.parsed
        adopt(self, node, base)
        node.status = NodeStatus.PROCESSED
        return
    if values is not None and not isinstance(values, (IPeripheral, ICluster, IRegister, IField)):
        raise ResolveException("type")
    is_dim, names, display_names = self._process._extract_and_process_dimension(parsed, values)
    made = []
    for i, name in enumerate(names):
        made.append(element(self, i, name, display_names[i], parsed, values))
    if not made:
        raise ResolveException("none")
    if not is_dim:
        resolved(self, node, base, made[0])
        return
    template = copy.copy(made[0])
    template.name = parsed.name
    for m in made:
        m.dim = None
        m.dim_increment = None
        m.dim_index = None
    resolved(self, node, base, template)
    node.is_dim_template = True
    replicas = []
    for parent in self._resolver_graph.get_element_parents(node):
        for m in made:
            r = ElementNode(name=m.name, level=node.level, status=NodeStatus.PROCESSED, parsed=parsed, processed=m)
            self._resolver_graph.add_element_child(parent, r, EdgeType.CHILD_RESOLVED)
            replicas.append(r)
    for r in replicas:
        for child in self._resolver_graph.get_element_childrens(node):
            self._resolver_graph.add_edge(r, child, EdgeType.CHILD_RESOLVED)


def resolved(self: Resolver, node: ElementNode, base, values):
    adopt(self, node, base)
    node.status = NodeStatus.PROCESSED
    node.processed = values
    for child in self._resolver_graph.get_element_childrens(node):
        self._resolver_graph.update_edge(node, child, EdgeType.CHILD_RESOLVED)


# -- references to bases ----------------------------------------------------


def resolve_placeholder(self: Resolver, placeholder: PlaceholderNode):
    if self._resolver_graph.get_placeholder_parent(placeholder).status != NodeStatus.PROCESSED:
        return
    node = self._resolver_graph.get_placeholder_child(placeholder)
    base = self._derived_from_path_resolving(node, placeholder.derive_path)
    if base is None:
        return
    self._resolver_graph.remove_placeholder(placeholder)
    try:
        self._resolver_graph.add_edge(base, node, EdgeType.DERIVE)
    except ResolverGraphException as e:
        raise CycleException("cycle") from e


def co_parents(self: Resolver):
    for p in self._resolver_graph.get_placeholders():
        parent = self._resolver_graph.get_placeholder_co_parent(p)
        if parent is not None:
            self._resolver_graph.add_edge(parent, p, EdgeType.PLACEHOLDER)


def all_placeholders(self: Resolver):
    for p in self._resolver_graph.get_placeholders():
        self._resolve_placeholder(p)


def found(self: Resolver, nodes: list[ElementNode], parts: list[str], me: ElementNode, level: ElementLevel) -> list[ElementNode]:
    matches = []
    for n in nodes:
        if n == me or n.name != parts[0]:
            continue
        if len(parts) == 1:
            if n.level == level:
                matches.append(n)
        else:
            matches.extend(found(self, self._resolver_graph.get_element_childrens(n), parts[1:], me, level))
        if len(matches) > 1:
            plain = [m for m in matches if isinstance(m.processed, IRegister) and m.processed.alternate_group is None]
            if len(plain) == 1:
                return plain
            raise ResolveException("ambiguous")
    return matches


def by_path(self: Resolver, node: ElementNode, path: str):
    parts = path.split(".")
    near = found(self, self._resolver_graph.get_element_siblings(node), parts, node, node.level)
    if len(near) == 1:
        return near[0]
    far = found(self, self._resolver_graph.get_element_childrens(self._root_node), parts, node, node.level)
    if len(far) == 1:
        return far[0]
    return None


# -- order of processing ------------------------------------------------------


def processable_start(self: Resolver):
    return list(self._resolver_graph.get_unprocessed_root_nodes())


def processable_step(self: Resolver, node: ElementNode):
    """an element still waiting for its base is not processed, and neither is anything below it"""
    if self._resolver_graph.has_incoming_edge_of_types(node, {EdgeType.PLACEHOLDER}):
        return [], []
    return list(self._resolver_graph.get_element_childrens(node)), [node]


def rounds_start(self: Resolver, parsed_device: SVDDevice):
    self._initialization(parsed_device)
    return ([],)


def rounds_step(self: Resolver, parsed_device: SVDDevice, previous: list[ElementNode]):
    """a round that would repeat the last one is refused: so the rounds end"""
    self._resolve_placeholders()
    nodes = self._get_topological_sorted_processable_nodes()
    if not nodes:
        return None
    if nodes == previous:
        raise LoopException("loop")
    for n in nodes:
        self._process_node(n)
    return (nodes,)


def rounds_end(self: Resolver, parsed_device: SVDDevice):
    if self._resolver_graph.get_unprocessed_nodes():
        raise UnprocessedNodesException("unprocessed")
    self._finalize_processing()
    if self._peripherals_resolved is None:
        raise ResolveException("none")
    return self._peripherals_resolved


# -- the initial graph --------------------------------------------------------


def start(self: Resolver, parsed_device: SVDDevice):
    root = ElementNode(name="Device", level=ElementLevel.DEVICE, status=NodeStatus.PROCESSED, parsed=parsed_device)
    self._resolver_graph.add_root(root)
    for p in parsed_device.peripherals:
        n = added(self, p, ElementLevel.PERIPHERAL, root, EdgeType.CHILD_RESOLVED)
        content(self, p.registers_clusters, n)
    self._root_node_ = root
    co_parents(self)


def added(self, parsed, level, parent, edge):
    n = ElementNode(name=parsed.name, level=level, status=NodeStatus.UNPROCESSED, parsed=parsed)
    self._resolver_graph.add_element_child(parent, n, edge)
    if parsed.derived_from is not None:
        self._resolver_graph.add_placeholder(PlaceholderNode(parsed.derived_from), n)
    return n


def content(self: Resolver, members: list[SVDRegister | SVDCluster], parent: ElementNode):
    for m in members:
        if isinstance(m, SVDCluster):
            n = added(self, m, ElementLevel.CLUSTER, parent, EdgeType.CHILD_UNRESOLVED)
            content(self, m.registers_clusters, n)
        elif isinstance(m, SVDRegister):
            n = added(self, m, ElementLevel.REGISTER, parent, EdgeType.CHILD_UNRESOLVED)
            for f in m.fields:
                fn = added(self, f, ElementLevel.FIELD, n, EdgeType.CHILD_UNRESOLVED)
                for e in f.enumerated_value_containers:
                    added(self, e, ElementLevel.ENUMCONT, fn, EdgeType.CHILD_UNRESOLVED)


def processable(self: Resolver):
    return self._resolver_graph.get_topological_sorted_nodes(self._find_processable_nodes())


def finish(self: Resolver):
    self._resolver_graph.bottom_up_node_traversal(self._finalize_node)


def code_size_of_one(self: Resolver, a: ElementNode):
    return self._calculate_size([a])


def want_size_of_one(self: Resolver, a: ElementNode):
    return widest(self, [a])


def code_size_of_two(self: Resolver, a: ElementNode, b: ElementNode):
    return self._calculate_size([a, b])


def want_size_of_two(self: Resolver, a: ElementNode, b: ElementNode):
    return widest(self, [a, b])
