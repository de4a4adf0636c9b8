"""Gated value-flow comparison of the file, bytes and text entry points with the constructor applied to the loaded document or
parsed device, the stage behind them being an arbitrary function."""
LEVEL = "other"
ASSUMPTIONS = ["str.encode() encodes as UTF-8"]

READERS = ["util.xml_parse:safe_parse", "util.xml_parse:safe_fromstring"]
LOADERS = ["Parser.from_svd_file", "Parser.from_xml_content"]
PROCESSORS = ["Process.from_svd_file", "Process.from_xml_content"]


def check(chk):
    for rule, cut in (("parse", [*READERS, "Parser._parse_device"]), ("process", [*LOADERS, "Process._process_device"]),
                      ("map", [*PROCESSORS, "PeripheralRegisterMap._build_map"])):
        if not all(chk.func(f) for f in cut):
            chk.missing(rule, ", ".join(f for f in cut if not chk.func(f)))
        else:
            chk.equiv(rule, f"specs.loading.code_{rule}", f"specs.loading.want_{rule}", opaque=cut)
