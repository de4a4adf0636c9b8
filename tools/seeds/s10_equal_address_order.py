PROPERTY = "C13"
NEEDS = "two registers at one address in different alternate groups, named against the order of the groups"
BREAKS = "registers at one address are ordered by name before alternate group"
EDITS = [("process.py", "return (reg_cluster.base_address, alt_key, reg_cluster.name)", "return (reg_cluster.base_address, alt_key[0], reg_cluster.name, alt_key)")]
DEMO = '''
x = "<register><name>Z</name><alternateGroup>A</alternateGroup><addressOffset>0</addressOffset></register><register><name>Y</name><alternateGroup>B</alternateGroup><addressOffset>0</addressOffset></register>"
d = process(device(peripheral("P", x)))
assert [r.name for r in d.peripherals[0].registers_clusters] == ["Z", "Y"]
'''
