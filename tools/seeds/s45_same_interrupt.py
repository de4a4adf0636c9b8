PROPERTY = 'C16'
NEEDS = 'a peripheral with two interrupts of one number'
BREAKS = 'of several interrupts with one number only the last is kept'
EDITS = [('process.py', '        for parsed_interrupt in parsed_interrupts:\n            interrupts.append(', '        for parsed_interrupt in {i.value: i for i in parsed_interrupts}.values():\n            interrupts.append(')]
ALSO = []
DEMO = r'''
i = "<interrupt><name>%s</name><value>3</value></interrupt>"
d = process(device(peripheral("P", register("R")).replace("<registers><", i % "A" + i % "B" + "<registers><")))
assert [x.name for x in d.peripherals[0].interrupts] == ["A", "B"], d.peripherals[0].interrupts
'''
