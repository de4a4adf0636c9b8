PROPERTY = 'C26'
NEEDS = 'a map built from a text that is not plain ASCII'
BREAKS = 'the text is encoded for one entry point in another way'
EDITS = [('map.py', 'Process.from_xml_content(xml_str.encode(), resolver', 'Process.from_xml_content(xml_str.encode("latin-1", "replace"), resolver')]
ALSO = []
DEMO = r'''
from svdsuite.map import PeripheralRegisterMap
x = device(peripheral("P", register("R"), more="<description>€</description>"))
m = PeripheralRegisterMap.from_xml_str(x)
assert m.peripheral_map[0].description == "€", m.peripheral_map[0].description
'''
