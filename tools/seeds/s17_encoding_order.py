PROPERTY = 'C05'
NEEDS = 'a file in Windows-1252 that has a character of the range 0x80 to 0x9f'
BREAKS = 'the file is read as ISO-8859-1, its quotes become control characters'
EDITS = [('util/xml_parse.py', '["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]', '["utf-8", "iso-8859-1", "windows-1252", "utf-16", "ascii"]')]
ALSO = []
DEMO = r'''
x = device(peripheral("P", register("R"), more="<description>\u201cq\u201d</description>")).encode("windows-1252")
assert Parser.from_xml_content(x).get_parsed_device().peripherals[0].description == "\u201cq\u201d"
'''
