PROPERTY = "C15"
NEEDS = "a write-once field over the bits of a read-only field"
BREAKS = "the overlap of a write-once field with a readable field is accepted"
EDITS = [("process.py", """            elif field.access == AccessType.WRITE_ONLY:
                # Check""", """            elif field.access in (AccessType.WRITE_ONLY, AccessType.WRITE_ONCE):
                # Check""")]
DEMO = '''
f = "<fields><field><name>A</name><bitOffset>0</bitOffset><bitWidth>2</bitWidth><access>read-only</access></field><field><name>B</name><bitOffset>1</bitOffset><bitWidth>2</bitWidth><access>writeOnce</access></field></fields>"
try:
    process(device(peripheral("P", register("R", "0", f))))
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
'''
