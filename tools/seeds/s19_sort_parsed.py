PROPERTY = 'C29'
NEEDS = 'registers listed out of address order'
BREAKS = 'processing reorders the parsed description it is given'
EDITS = [('resolve/graph_builder.py', '        for parsed_register_cluster in parsed_registers_clusters:\n', '        parsed_registers_clusters.sort(key=lambda rc: rc.address_offset)\n        for parsed_register_cluster in parsed_registers_clusters:\n')]
ALSO = []
DEMO = r'''
p = Parser.from_xml_str(device(peripheral("P", register("B", "4") + register("A", "0")))).get_parsed_device()
Process(p, None)
assert [r.name for r in p.peripherals[0].registers_clusters] == ["B", "A"]
'''
