PROPERTY = 'C17'
NEEDS = 'a register with an alternate group that starts before every plain register it overlaps'
BREAKS = 'a register of an alternate group counts for overlaps when it comes first'
EDITS = [('process.py', '            if isinstance(item, Register) and item.alternate_group is not None:\n                continue\n\n', '            if isinstance(item, Register) and item.alternate_group is not None and len(intervals) > 0:\n                continue\n\n')]
ALSO = []
DEMO = r'''
d, w = seen(device(peripheral("P", register("A", "0", "", "").replace("<addressOffset>", "<alternateGroup>G</alternateGroup><addressOffset>") + register("B", "2"))))
assert not [x for x in w if "verlap" in x], w
'''
