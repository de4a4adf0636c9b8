"""Gated value-flow comparison, over an arbitrary element tree, of the conditions under which the parser refuses the
description, and of those under which it warns, with the reference reading."""
LEVEL = "other"
ASSUMPTIONS = ["lxml element queries (find, findall, get, iteration, text) behave as documented"]


PARTS = [("Parser._parse_element_text", "specs.parse.element_text"), ("Parser._parse_element_attribute", "specs.parse.element_attribute"),
         ("parse:_to_int", "specs.parse.int_of"), ("parse:_to_bool", "specs.parse.bool_of")]


def check(chk):
    seen = {"observe": ("raises", "warns")}
    chk.staged("refusal-condition", ("specs.drivers.parse_tree", "specs.parse.device", seen),
               [(a, b, seen) for a, b in PARTS if chk.func(a)])
