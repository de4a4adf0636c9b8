PROPERTY = 'C10'
NEEDS = 'a derived register list that states its own dimIndex while its base has another one'
BREAKS = "the copies are named by the base's dimIndex"
EDITS = [('process.py', 'dim_index = or_if_none(parsed_element.dim_index, base_element.dim_index if base_element else None)\n\n        display_name', 'dim_index = or_if_none(base_element.dim_index if base_element else None, parsed_element.dim_index)\n\n        display_name')]
ALSO = []
DEMO = r'''
def lst(name, idx, off, attrs=""):
    return (f"<register{attrs}><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>{idx}</dimIndex>"
            f"<name>{name}</name><addressOffset>{off}</addressOffset></register>")
d = process(device(peripheral("P", lst("R%s", "A,B", 0) + lst("Q%s", "C,D", 16, ' derivedFrom="R%s"'))))
names = [x.name for x in d.peripherals[0].registers_clusters]
assert names == ["RA", "RB", "QC", "QD"], names
'''
