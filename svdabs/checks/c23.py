"""Gated value-flow comparison of the element tree the serializer's entry points build, for an arbitrary device
description, with the tree the CMSIS-SVD schema prescribes: every element, its position, its text and its attributes, at
two nesting depths with induction for deeper ones; and of what is done with the tree (bytes, text, file)."""
LEVEL = "other"
ASSUMPTIONS = ["lxml element construction and tostring behave as documented"]


def check(chk):
    top = "SVDDeviceSerializer.to_xml"
    chk.equiv("tree", "specs.serialize.code_device", "specs.serialize.device")
    chk.equiv("tree-nested", "specs.serialize.code_cluster", "specs.serialize.cluster", rec=2)
    if not chk.func(top):
        return chk.missing("output", top)
    s = "Serializer.device_to_svd_"
    chk.equiv("output", "specs.serialize.code_content", "specs.serialize.want_content", opaque=[top])
    chk.equiv("output", "specs.serialize.code_defaults", "specs.serialize.want_defaults", opaque=[top])
    chk.equiv("output", "specs.serialize.code_text", "specs.serialize.want_text", opaque=[top])
    chk.equiv("output", "specs.serialize.code_file", "specs.serialize.want_file", opaque=[top], traced=["write"], observe=("trace", "raises"))
