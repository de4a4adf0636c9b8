PROPERTY = 'C07'
NEEDS = 'a SAU region without the attribute enabled inside a disabled configuration'
BREAKS = 'the region takes over the state of the configuration'
EDITS = [('process.py', '                    enabled=True if parsed_region.enabled is None else parsed_region.enabled,', '                    enabled=parsed_region.parent.enabled is not False if parsed_region.enabled is None else parsed_region.enabled,')]
ALSO = []
DEMO = r'''
cpu = ("<cpu><name>CM33</name><revision>r0p0</revision><endian>little</endian><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig>"
       '<sauRegionsConfig enabled="false"><region name="A"><base>0</base><limit>1</limit><access>n</access></region></sauRegionsConfig></cpu>')
x = device(peripheral("P", register("R"))).replace("<addressUnitBits>", cpu + "<addressUnitBits>")
assert process(x).cpu.sau_regions_config.regions[0].enabled is True
'''
