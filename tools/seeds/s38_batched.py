PROPERTY = 'C31'
NEEDS = 'Python 3.10 or 3.11'
BREAKS = 'the package needs itertools.batched, which Python 3.12 introduced'
EDITS = [('process.py', '        combinations = itertools.product("01", repeat=x_count)\n', '        combinations = [c or () for c in itertools.batched(\n            itertools.chain.from_iterable(itertools.product("01", repeat=x_count)), max(x_count, 1)\n        )] or [()]\n')]
ALSO = []
DEMO = r'''
import itertools
if hasattr(itertools, "batched"):
    del itertools.batched
f = "<fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>3</bitWidth><enumeratedValues><enumeratedValue><name>E</name><value>#0xx</value></enumeratedValue></enumeratedValues></field></fields>"
process(device(peripheral("P", register("R", more=f))))
'''
