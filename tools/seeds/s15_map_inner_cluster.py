PROPERTY = 'C25'
NEEDS = 'a cluster within a cluster within a cluster'
BREAKS = 'registers of the third cluster level are listed without the offset of the level above'
EDITS = [('map.py', 'registers.extend(self._build_map_cluster(address, register_cluster))', 'registers.extend(self._build_map_cluster(container_address, register_cluster))')]
ALSO = []
DEMO = r'''
from svdsuite.map import PeripheralRegisterMap
c = "<cluster><name>A</name><addressOffset>0x10</addressOffset><cluster><name>B</name><addressOffset>0x8</addressOffset>" + register("R", "4") + "</cluster></cluster>"
m = PeripheralRegisterMap.from_xml_str(device(peripheral("P", c)))
assert [r.address for r in m.peripheral_map[0].registers] == [0x101C]
'''
