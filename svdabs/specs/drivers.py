"""Entry points of the public interface, as a user calls them."""
from lxml.etree import _ElementTree

from svdsuite.parse import Parser
from svdsuite.process import Process
from svdsuite.model.parse import SVDDevice


def parse_tree(tree: _ElementTree):
    return Parser(tree).get_parsed_device()


def address_unit_bits(tree: _ElementTree):
    return Parser(tree).get_parsed_device().address_unit_bits


def process(parsed: SVDDevice):
    return Process(parsed, None).get_processed_device()
