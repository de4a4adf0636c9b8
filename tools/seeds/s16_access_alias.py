PROPERTY = 'C04'
NEEDS = "a field or register whose access is written 'Read' or 'WRITE' with capitals"
BREAKS = 'the aliases of older files are only understood in lower case'
EDITS = [('model/types.py', 'if label_lower == "read":', 'if label == "read":')]
ALSO = []
DEMO = r'''
d = process(device(peripheral("P", register("R", more="<access>Read</access>"))))
assert d.peripherals[0].registers_clusters[0].access.value == "read-only"
'''
