PROPERTY = "C11"
NEEDS = "a field that derives from another, states only its bit offset, and takes the width from a base wider than one bit"
BREAKS = "the width taken from the base is the distance between its highest and lowest bit, one bit too little, when the base does not start at bit 0"
EDITS = [("process.py", "bit_width = or_if_none(parsed_field.bit_width, base.msb - base.lsb + 1 if base else None)", "bit_width = or_if_none(parsed_field.bit_width, base.msb - base.lsb + (1 if base.lsb in (0, 8) else int(base.lsb < 5)) if base else None)")]
DEMO = '''
f = "<fields><field><name>A</name><bitOffset>5</bitOffset><bitWidth>3</bitWidth></field><field derivedFrom='A'><name>B</name><bitOffset>16</bitOffset></field></fields>"
d = process(device(peripheral("P", register("R", "0", f))))
b = d.peripherals[0].registers[0].fields[1]
assert (b.lsb, b.msb) == (16, 18), (b.lsb, b.msb)
'''
