"""Reference semantics of the textual tokens of a description."""
from svdsuite.parse import Parser
from lxml.etree import _ElementTree
from specs.parse import boolean, number, need, text


def number_or_none(value: None | str):
    return number(value)


def boolean_or_none(value: None | str):
    return boolean(value)


def boolean_needed(value: str):
    return boolean(value)


def code_number(tree: _ElementTree):
    return Parser(tree).get_parsed_device().address_unit_bits


def want_number(tree: _ElementTree):
    return number(need(tree.getroot(), "addressUnitBits"))


def code_optional_number(tree: _ElementTree):
    return Parser(tree).get_parsed_device().reset_value


def want_optional_number(tree: _ElementTree):
    return number(text(tree.getroot(), "resetValue"))


def code_boolean(tree: _ElementTree):
    c = Parser(tree).get_parsed_device().cpu
    return None if c is None else c.mpu_present


def want_boolean(tree: _ElementTree):
    c = tree.getroot().find("cpu")
    return None if c is None else boolean(text(c, "mpuPresent"))
