PROPERTY = 'C02'
NEEDS = 'an element text with spaces around it inside a description that keeps them'
BREAKS = 'the warning about a stripped text is left out when only the end is changed'
EDITS = [('parse.py', '        if text_before_strip != text_after_strip:', '        if not text_before_strip.startswith(text_after_strip):')]
ALSO = []
DEMO = r'''
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    Parser.from_xml_str(device(peripheral("P", register("R", "0 ")))).get_parsed_device()
assert any("stripped" in str(x.message) for x in w)
'''
