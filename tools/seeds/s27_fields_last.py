PROPERTY = 'C01'
NEEDS = 'a register with two <fields> elements, the first of them empty'
BREAKS = 'fields of the further <fields> elements are lost when the first is empty'
EDITS = [('parse.py', '            for field_element in fields_element.findall("field"):\n', '            if len(fields_element) == 0:\n                break\n\n            for field_element in fields_element.findall("field"):\n')]
ALSO = []
DEMO = r'''
f = "<fields></fields><fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth></field></fields>"
p = Parser.from_xml_str(device(peripheral("P", register("R", more=f)))).get_parsed_device()
assert [x.name for x in p.peripherals[0].registers_clusters[0].fields] == ["F"]
'''
