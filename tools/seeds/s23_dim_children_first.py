PROPERTY = 'C21'
NEEDS = 'a derived peripheral whose base contains a register array'
BREAKS = 'only the first parent of a replicated register array gets the copies'
EDITS = [('resolve/resolver.py', '        for parent in parents:\n            for processed_element in processed_elements:', '        for parent in parents[:1]:\n            for processed_element in processed_elements:')]
ALSO = ['C22']
DEMO = r'''
c = "<cluster><dim>2</dim><dimIncrement>16</dimIncrement><name>C%s</name><addressOffset>0</addressOffset><register><dim>2</dim><dimIncrement>4</dimIncrement><name>R%s</name><addressOffset>0</addressOffset></register></cluster>"
d = process(device(peripheral("P", c)))
a = [[r.name for r in k.registers_clusters] for k in d.peripherals[0].registers_clusters]
assert a == [["R0", "R1"]] * 2, a
'''
