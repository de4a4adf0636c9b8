PROPERTY = 'C30'
NEEDS = 'one process that validates against two versions of equal first five characters (1.3.1 and 1.3.10)'
BREAKS = 'the verdict depends on the versions validated against before'
EDITS = [('validate.py', '        with open(xsd_path, "rb") as xsd_file:\n            schema = lxml.etree.XMLSchema(safe_parse(xsd_file))\n            if not schema', '        key = schema_version.value[:5]\n        if key not in Validator._schemas:\n            Validator._schemas[key] = lxml.etree.XMLSchema(safe_parse(xsd_path))\n        schema = Validator._schemas[key]\n        if True:\n            if not schema'), ('validate.py', 'class Validator:\n', 'class Validator:\n    _schemas: dict = {}\n\n')]
ALSO = []
DEMO = r'''
from svdsuite.validate import Validator, SVDSchemaVersion as V
import itertools, subprocess
x = device(peripheral("P", register("R", "0", "<size>32</size>")))
feature = [x, x.replace("<name>P</name>", "<name>P</name><version>1</version>"), x.replace("<peripherals>", "<cpu><name>CM85</name><revision>r0p0</revision><endian>little</endian><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu><peripherals>").replace("<addressUnitBits>", "").replace("8</addressUnitBits>", "<addressUnitBits>8</addressUnitBits>")]
cpu = "<cpu><name>%s</name><revision>r0p0</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu><addressUnitBits>"
for n in ("CM85", "CM52", "CM55", "CM35P", "SMC1", "CM0"):
    feature.append(x.replace("<addressUnitBits>", cpu % n))


def verdict(v, t):
    return Validator.validate_xml_str(t, get_exception=False, schema_version=v)


late = [V.V1_3_10, V.V1_3_11]
one = "import sys; sys.path.insert(0, 'src'); from svdsuite.validate import Validator, SVDSchemaVersion as V; print(Validator.validate_xml_str(sys.argv[2], get_exception=False, schema_version=V[sys.argv[1]]))"
for t in feature:
    first = verdict(V.V1_3_1, t)
    for v in late:
        alone = subprocess.run([sys.executable, "-c", one, v.name, t], stdout=subprocess.PIPE, text=True).stdout.strip()
        assert alone == str(verdict(v, t)), (v, alone)
'''
