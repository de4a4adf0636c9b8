PROPERTY = 'C24'
NEEDS = 'a register without a display name that is converted back'
BREAKS = 'the converted register states a display name although the processed one has none'
EDITS = [('util/process_parse_model_convert.py', '        display_name=register.display_name,', '        display_name=register.display_name or register.name,')]
ALSO = []
DEMO = r'''
d = Process.from_xml_str(device(peripheral("P", register("R")))).convert_processed_device_to_svd_device()
assert d.peripherals[0].registers_clusters[0].display_name is None
'''
