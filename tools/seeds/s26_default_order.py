PROPERTY = 'C18'
NEEDS = "a default entry that is not the last one and a later entry with the default's name"
BREAKS = "the default's name is not reserved"
EDITS = [('process.py', '        # Add to seen names and values\n        self._seen_names.add(value.name)\n        if value.value is not None:\n            self._seen_values[value.value] = value.name\n', '        # Add to seen names and values\n        if value.value is not None:\n            self._seen_names.add(value.name)\n            self._seen_values[value.value] = value.name\n')]
ALSO = []
DEMO = r'''
f = "<fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth><enumeratedValues><enumeratedValue><name>E</name><isDefault>true</isDefault></enumeratedValue><enumeratedValue><name>E</name><value>1</value></enumeratedValue></enumeratedValues></field></fields>"
d, w = seen(device(peripheral("P", register("R", more=f))))
v = [(e.name, e.value) for e in d.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].enumerated_values]
assert v == [("E_0", 0), ("E_1", 1)], v
'''
