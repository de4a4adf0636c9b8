PROPERTY = 'C27'
NEEDS = 'a document of schema 1.3.4 or another version with an element its schema does not allow'
BREAKS = 'a file of one version is validated against a neighbouring one'
EDITS = [('validate.py', 'f"{schema_version.value}.xsd"', 'f"{schema_version.value}.xsd".replace("1.3.10", "1.3.11")')]
ALSO = []
DEMO = r'''
import lxml.etree, os
from svdsuite.validate import Validator, SVDSchemaVersion
import svdsuite.validate as v
opened = []
real = v.lxml.etree.XMLSchema
import builtins
ro = builtins.open
def spy(p, *a, **k):
    opened.append(str(p))
    return ro(p, *a, **k)
builtins.open = spy
for s in SVDSchemaVersion:
    del opened[:]
    Validator.validate_xml_str(device(peripheral("P", register("R"))), False, s)
    assert any(o.endswith(s.value + ".xsd") for o in opened), (s, opened)
'''
