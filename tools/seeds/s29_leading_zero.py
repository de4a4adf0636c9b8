PROPERTY = 'C06'
NEEDS = 'a number written with leading zeros'
BREAKS = 'the number is read as octal'
EDITS = [('parse.py', '            return int(value)\n        except ValueError:', '            return int(value, 8)\n        except ValueError:')]
ALSO = []
DEMO = r'''
p = Parser.from_xml_str(device(peripheral("P", register("R", "010")))).get_parsed_device()
assert p.peripherals[0].registers_clusters[0].address_offset == 10
'''
