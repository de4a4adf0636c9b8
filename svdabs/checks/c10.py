"""Gated value-flow comparison of dimension expansion (decision to expand, names, display names, indices, refusals) and of the place each replica gets, with the reference, for arbitrary elements and index texts."""
from . import _process as p
from . import _resolver as r

LEVEL = "other"
ASSUMPTIONS = ['re matches as documented; str.replace, str.split, int and chr behave as documented']


def check(chk):
    p.dimensions(chk, "expansion")
    p.elements(chk, "placement", observe=("value",), keep=p.about("base_address", "address_offset", "lsb", "msb", "name", "display_name", "dim", "dim_index", "dim_increment"))
    r.one(chk, "replicas")
