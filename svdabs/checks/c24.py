"""Gated value-flow comparison of the description converted from an arbitrary processed device with the reference
conversion: every attribute of every element, every list and its order, every parent; nested clusters by induction."""
LEVEL = "other"
ASSUMPTIONS = ["the processed device is arbitrary"]


def check(chk):
    chk.equiv("conversion", "Process.convert_processed_device_to_svd_device", "specs.convert.entry")
