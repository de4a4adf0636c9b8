"""Reference semantics of reading XML, of the entry points and of schema validation (interpreted by the analysis, never executed)."""
import warnings

from lxml import etree

from svdsuite.map import PeripheralRegisterMap
from svdsuite.parse import Parser
from svdsuite.process import Process
from svdsuite.util.parser_exception_warning import ParserWarning
from svdsuite.util.xml_parse import safe_fromstring, safe_parse
from svdsuite.validate import SVDSchemaVersion, Validator


def document(path: str):
    try:
        return etree.parse(path, parser=etree.XMLParser(recover=False))
    except etree.XMLSyntaxError as e:
        first = e
    for lenient in (False, True):
        for encoding in ("utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"):
            try:
                tree = etree.parse(path, parser=etree.XMLParser(encoding=encoding, recover=lenient))
            except etree.XMLSyntaxError:
                continue
            warnings.warn("fallback", ParserWarning)
            return tree
    raise first


def root(content: bytes):
    try:
        return etree.fromstring(content, parser=etree.XMLParser(recover=False))
    except etree.XMLSyntaxError as e:
        first = e
    for lenient in (False, True):
        for encoding in ("utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"):
            try:
                element = etree.fromstring(content, parser=etree.XMLParser(encoding=encoding, recover=lenient))
            except etree.XMLSyntaxError:
                continue
            warnings.warn("fallback", ParserWarning)
            return element
    raise first


def code_parse(path: str, content: bytes, text: str):
    return [Parser.from_svd_file(path).get_parsed_device(), Parser.from_xml_content(content).get_parsed_device(),
            Parser.from_xml_str(text).get_parsed_device()]


def want_parse(path: str, content: bytes, text: str):
    return [Parser(safe_parse(path)).get_parsed_device(), Parser(safe_fromstring(content).getroottree()).get_parsed_device(),
            Parser(safe_fromstring(text.encode()).getroottree()).get_parsed_device()]


def code_process(path: str, content: bytes, text: str, log: None | str):
    return [Process.from_svd_file(path, log).get_processed_device(), Process.from_xml_content(content, log).get_processed_device(),
            Process.from_xml_str(text, log).get_processed_device(), Process.from_svd_file(path).get_processed_device(),
            Process.from_xml_content(content).get_processed_device(), Process.from_xml_str(text).get_processed_device()]


def want_process(path: str, content: bytes, text: str, log: None | str):
    return [Process(Parser.from_svd_file(path).get_parsed_device(), log).get_processed_device(),
            Process(Parser.from_xml_content(content).get_parsed_device(), log).get_processed_device(),
            Process(Parser.from_xml_str(text).get_parsed_device(), log).get_processed_device(),
            Process(Parser.from_svd_file(path).get_parsed_device(), None).get_processed_device(),
            Process(Parser.from_xml_content(content).get_parsed_device(), None).get_processed_device(),
            Process(Parser.from_xml_str(text).get_parsed_device(), None).get_processed_device()]


def code_map(path: str, content: bytes, text: str, log: None | str):
    m = PeripheralRegisterMap
    return [m.from_svd_file(path, log).peripheral_map, m.from_xml_content(content, log).peripheral_map, m.from_xml_str(text, log).peripheral_map,
            m.from_svd_file(path).peripheral_map, m.from_xml_content(content).peripheral_map, m.from_xml_str(text).peripheral_map]


def want_map(path: str, content: bytes, text: str, log: None | str):
    m = PeripheralRegisterMap
    return [m(Process.from_svd_file(path, log).get_processed_device()).peripheral_map,
            m(Process.from_xml_content(content, log).get_processed_device()).peripheral_map,
            m(Process.from_xml_content(text.encode(), log).get_processed_device()).peripheral_map,
            m(Process.from_svd_file(path, None).get_processed_device()).peripheral_map,
            m(Process.from_xml_content(content, None).get_processed_device()).peripheral_map,
            m(Process.from_xml_content(text.encode(), None).get_processed_device()).peripheral_map]


def latest():
    return SVDSchemaVersion.V1_3_11


def code_latest():
    return SVDSchemaVersion.get_latest()


def verdict(tree, get_exception: bool, version: str):
    with open("/published/" + version + ".xsd", "rb") as f:
        schema = etree.XMLSchema(safe_parse(f))
        if schema.validate(tree):
            return True
        if get_exception:
            schema.assertValid(tree)
        return False


def code_file(path: str, get_exception: bool, version: str):
    return Validator.validate_xml_file(path, get_exception, SVDSchemaVersion(version))


def want_file(path: str, get_exception: bool, version: str):
    return verdict(safe_parse(path), get_exception, version)


def code_content(content: bytes, get_exception: bool, version: str):
    return Validator.validate_xml_content(content, get_exception, SVDSchemaVersion(version))


def want_content(content: bytes, get_exception: bool, version: str):
    return verdict(safe_fromstring(content).getroottree(), get_exception, version)


def code_text(text: str, get_exception: bool, version: str):
    return Validator.validate_xml_str(text, get_exception, SVDSchemaVersion(version))


def want_text(text: str, get_exception: bool, version: str):
    return verdict(safe_fromstring(text.encode()).getroottree(), get_exception, version)


def code_defaults(path: str, content: bytes, text: str):
    return [Validator.validate_xml_file(path), Validator.validate_xml_content(content), Validator.validate_xml_str(text)]


def want_defaults(path: str, content: bytes, text: str):
    return [verdict(safe_parse(path), True, "1.3.11"), verdict(safe_fromstring(content).getroottree(), True, "1.3.11"),
            verdict(safe_fromstring(text.encode()).getroottree(), True, "1.3.11")]
