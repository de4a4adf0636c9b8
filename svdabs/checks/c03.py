"""Gated value-flow comparison, over an arbitrary element tree, of the parent reference every parsed element carries
with the element the reference reading makes it a child of."""
LEVEL = "other"
ASSUMPTIONS = ["lxml element queries (find, findall, get, iteration, text) behave as documented"]

KEEP = {"parent", "cpu", "sau_regions_config", "regions", "peripherals", "address_blocks", "interrupts",
        "registers_clusters", "fields", "enumerated_value_containers", "enumerated_values", "dim_array_index",
        "write_constraint"}


def check(chk):
    chk.equiv("parent-link", "specs.drivers.parse_tree", "specs.parse.device", observe=("value", "store"),
              attrs={"*": lambda k: k in KEEP}, store_attrs={"parent"}, keep=lambda d: "parent" in d.path)
