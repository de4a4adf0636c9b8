PROPERTY = 'C14'
NEEDS = "a field whose name starts with 'reserved' or is 'Reserved'"
BREAKS = 'fields whose name only starts with reserved are dropped'
EDITS = [('process.py', '            if i_field.name.lower() == "reserved":', '            if i_field.name.lower().startswith("reserved"):')]
ALSO = []
DEMO = r'''
f = "<fields><field><name>RESERVED1</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth></field></fields>"
d = process(device(peripheral("P", register("R", more=f))))
assert [x.name for x in d.peripherals[0].registers_clusters[0].fields] == ["RESERVED1"]
'''
