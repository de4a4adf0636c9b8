PROPERTY = 'C09'
NEEDS = 'a register with a write constraint whose field states another'
BREAKS = "the register's constraint replaces the field's own"
EDITS = [('process.py', 'field.write_constraint = or_if_none(field.write_constraint, write_constraint)', 'field.write_constraint = or_if_none(write_constraint, field.write_constraint)')]
ALSO = []
DEMO = r'''
c = "<writeConstraint><range><minimum>0</minimum><maximum>%d</maximum></range></writeConstraint>"
f = "<fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>1</bitWidth>" + c % 1 + "</field></fields>"
d = process(device(peripheral("P", register("R", more=c % 3 + f))))
assert d.peripherals[0].registers_clusters[0].fields[0].write_constraint.range_ == (0, 1)
'''
