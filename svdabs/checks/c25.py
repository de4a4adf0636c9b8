"""Gated value-flow comparison of the register map built from an arbitrary processed device with the reference map: every
attribute of every entry, absolute addresses at every nesting depth (induction over clusters), order, allocated range."""
LEVEL = "other"
ASSUMPTIONS = ["min, max and sorted behave as documented"]


def check(chk):
    chk.equiv("map", "specs.map.code", "specs.map.want")
    chk.equiv("map-nested", "specs.map.code", "specs.map.want", rec=2)
    stages = ["Parser.from_svd_file", "Parser.from_xml_content", "Process._process_device"]
    if not all(chk.func(f) for f in stages):
        return chk.missing("entry-points", ", ".join(stages))
    for k in ("file", "content", "text"):
        chk.equiv("entry-points", f"specs.map.code_{k}", f"specs.map.want_{k}", opaque=stages)
