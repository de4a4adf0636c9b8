PROPERTY = 'C18'
NEEDS = 'an enumerated value given as a digit that is no decimal (superscript two)'
BREAKS = "a bare ValueError leaves processing instead of the library's own exception"
EDITS = [('process.py', '        try:\n            if input_str.startswith("0b"):', '        if input_str.isdigit():\n            return [int(input_str)]\n\n        try:\n            if input_str.startswith("0b"):')]
ALSO = []
DEMO = r'''
f = "<fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>4</bitWidth><enumeratedValues><enumeratedValue><name>A</name><value>\u00b2</value></enumeratedValue></enumeratedValues></field></fields>"
try:
    process(device(peripheral("P", register("R", more=f))))
except ProcessException:
    pass
'''
