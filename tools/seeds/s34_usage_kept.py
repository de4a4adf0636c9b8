PROPERTY = 'C16'
NEEDS = 'a processed enumerated value container of usage write'
BREAKS = 'the header name of a container is replaced by its name where absent'
EDITS = [('process.py', '            header_enum_name=parsed_enum_container.header_enum_name,', '            header_enum_name=parsed_enum_container.header_enum_name or parsed_enum_container.name,')]
ALSO = []
DEMO = r'''
f = "<fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth><enumeratedValues><name>N</name><enumeratedValue><name>E</name><value>1</value></enumeratedValue></enumeratedValues></field></fields>"
d = process(device(peripheral("P", register("R", more=f))))
assert d.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].header_enum_name is None
'''
