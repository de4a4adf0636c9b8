PROPERTY = 'C23'
NEEDS = 'an enumerated value that states a value and isDefault'
BREAKS = 'the value of a default enumerated value is not written'
EDITS = [('serialize.py', '        if self.enumerated_value.value is not None:\n', '        if self.enumerated_value.value is not None and not self.enumerated_value.is_default:\n')]
ALSO = []
DEMO = r'''
from svdsuite.serialize import SVDEnumeratedValueSerializer
from svdsuite.model.parse import SVDEnumeratedValue
import lxml.etree
t = lxml.etree.tostring(SVDEnumeratedValueSerializer(SVDEnumeratedValue(name="A", value="1", is_default=True)).to_xml()).decode()
assert "<value>1</value>" in t, t
'''
