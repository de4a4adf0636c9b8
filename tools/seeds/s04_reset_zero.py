PROPERTY = "C08"
NEEDS = "a register derived from one with a non-zero reset value, itself stating a reset value of zero"
BREAKS = "a reset value of zero stated by the deriving register is replaced by the base's reset value"
EDITS = [("process.py", """        reset_value = or_if_none(parsed.reset_value, base.reset_value if base else None)
        reset_mask = or_if_none(parsed.reset_mask, base.reset_mask if base else None)

        description = or_if_none(parsed.description, base.description if base else None)
        alternate_group""", """        reset_value = parsed.reset_value or (base.reset_value if base else parsed.reset_value)
        reset_mask = or_if_none(parsed.reset_mask, base.reset_mask if base else None)

        description = or_if_none(parsed.description, base.description if base else None)
        alternate_group""")]
DEMO = '''
d = process(device(peripheral("P", register("A", "0", "<resetValue>5</resetValue>") + register("B", "4", "<resetValue>0</resetValue>", ' derivedFrom="A"'))))
assert [r.reset_value for r in d.peripherals[0].registers] == [5, 0]
'''
