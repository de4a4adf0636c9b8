PROPERTY = 'C22'
NEEDS = 'a cluster whose widest register has a width that is no multiple of eight'
BREAKS = 'the size is rounded down instead of ignoring the register'
EDITS = [('resolve/resolver.py', '                child_size = 0\n', '                child_size = child_size // 8 * 8\n')]
ALSO = []
DEMO = r'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset>" + register("A", "0", more="<size>8</size>") + register("B", "4", more="<size>20</size>") + "</cluster>"
d = process(device(peripheral("P", c)))
assert d.peripherals[0].registers_clusters[0].size == 8
'''
