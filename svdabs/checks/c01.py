"""Gated value-flow comparison, over an arbitrary element tree, of the device the parser's public entry point builds
with the device the reference reading builds: every attribute of every parsed element, every list and its order."""
LEVEL = "other"
ASSUMPTIONS = ["lxml element queries (find, findall, get, iteration, text) behave as documented"]


def check(chk):
    chk.equiv("parsed-value", "specs.drivers.parse_tree", "specs.parse.device", observe=("value",),
              attrs={"*": lambda k: k != "parent"})
