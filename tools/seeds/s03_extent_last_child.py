PROPERTY = "C12"
NEEDS = "a cluster whose last child by address is shorter than an earlier child reaching further (a wide register overlapped by an alternate one)"
BREAKS = "the end address and size of a cluster are taken from its last child instead of the child reaching furthest"
EDITS = [("process.py", """                cluster_effective_end = max(
                    child.base_address
                    + (_to_byte(child.size) if isinstance(child, Register) else child.cluster_size)
                    - 1
                    for child in children
                )""", """                last = children[-1]
                cluster_effective_end = (
                    last.base_address
                    + (_to_byte(last.size) if isinstance(last, Register) else last.cluster_size)
                    - 1
                )""")]
DEMO = '''
x = "<cluster><name>C</name><description>c</description><addressOffset>0</addressOffset>" + register("A", "0", "<size>64</size>") + "<register><name>B</name><alternateRegister>A</alternateRegister><addressOffset>4</addressOffset><size>8</size></register></cluster>"
d = process(device(peripheral("P", x)))
assert d.peripherals[0].registers_clusters[0].end_address == 0x1007
'''
