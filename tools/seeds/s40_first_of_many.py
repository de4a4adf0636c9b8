PROPERTY = 'C19'
NEEDS = 'a derivedFrom path that two registers without an alternate group answer to'
BREAKS = 'an ambiguous derivedFrom takes the first of several bases instead of being refused'
EDITS = [('resolve/resolver.py', '                    if len(filtered_matches) == 1:\n                        return filtered_matches\n', '                    if filtered_matches:\n                        return filtered_matches[:1]\n')]
ALSO = []
DEMO = r'''
A = register("A", "0", "<description>one</description>")
B = register("A", "4", "<description>two</description>")
D = "<register derivedFrom='Q.A'><name>X</name><addressOffset>0</addressOffset></register>"
try:
    process(device(peripheral("Q", A + B, "0x3000") + peripheral("P", D)))
except Exception as e:
    e = e.__cause__ or e
    assert "Multiple base nodes" in str(e), repr(e)
else:
    raise SystemExit("accepted")
'''
