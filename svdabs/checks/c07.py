"""Gated value-flow comparison of the finished device information (everything above the peripherals) with the reference defaults, for an arbitrary parsed device."""
from . import _process as p

LEVEL = "other"
ASSUMPTIONS = ['the parsed device is arbitrary']


def check(chk):
    p.whole(chk, "device-information", ("value",), keep=lambda d: not d.path.startswith(".peripherals"), store_attrs=(), stepwise=False)
