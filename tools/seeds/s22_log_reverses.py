PROPERTY = 'C32'
NEEDS = 'a run with the resolver log switched on and an inheritance chain'
BREAKS = 'with logging on, elements are processed in another order'
EDITS = [('resolve/logger.py', '        self._html_generator.add_h3("Processable Elements")\n', '        self._html_generator.add_h3("Processable Elements")\n        topological_sorted_nodes.sort(key=lambda node: node.name or "")\n')]
ALSO = []
DEMO = r'''
import svdsuite.resolve.graph as g, tempfile, os
g.ResolverGraph.get_svg = lambda self: "<svg></svg>"
x = device(peripheral("A", "", more="", attrs=' derivedFrom="B"', base="0x2000") + peripheral("B", register("R")))
a = process(x)
with tempfile.TemporaryDirectory() as t:
    b = Process.from_xml_str(x, os.path.join(t, "log.html")).get_processed_device()
assert [p.name for p in a.peripherals] == [p.name for p in b.peripherals]
'''
