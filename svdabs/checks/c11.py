"""Gated value-flow comparison of the bit position of a field, from each of the three notations and from its base, and of the positions reported in the finished device, with the reference."""
from . import _process as p

LEVEL = "other"
ASSUMPTIONS = ['re matches as documented']


def check(chk):
    p.elements(chk, "bit-position", only=("field",))
    p.whole(chk, "reported-position", ("value",), keep=p.about("lsb", "msb", "bit_offset", "bit_width", "bit_range"))
