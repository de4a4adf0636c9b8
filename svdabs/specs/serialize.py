"""Reference semantics of writing a device description (interpreted by the analysis, never executed).

Element order is the one the CMSIS-SVD schema prescribes."""
from lxml import etree

from svdsuite.model.parse import (
    SVDCPU, SVDAddressBlock, SVDCluster, SVDDevice, SVDDimArrayIndex, SVDEnumeratedValue, SVDEnumeratedValueContainer,
    SVDField, SVDInterrupt, SVDPeripheral, SVDRegister, SVDSauRegion, SVDSauRegionsConfig, SVDWriteConstraint,
)
from svdsuite.serialize import Serializer, SVDClusterSerializer, SVDDeviceSerializer

XS = "http://www.w3.org/2001/XMLSchema-instance"


def leaf(parent, tag, text):
    e = etree.SubElement(parent, tag)
    e.text = text


def text(parent, tag, s):
    if s is not None:
        leaf(parent, tag, s)


def dec(parent, tag, n):
    if n is not None:
        leaf(parent, tag, str(n))


def hexa(parent, tag, n):
    if n is not None:
        leaf(parent, tag, f"{n:#x}")


def flag(parent, tag, b):
    if b is not None:
        leaf(parent, tag, "true" if b else "false")


def token(parent, tag, t):
    if t is not None:
        leaf(parent, tag, t.value)


def derived(e, x):
    if x.derived_from is not None:
        e.set("derivedFrom", x.derived_from)


def value(v: SVDEnumeratedValue):
    e = etree.Element("enumeratedValue")
    leaf(e, "name", v.name)
    text(e, "description", v.description)
    text(e, "value", v.value)
    flag(e, "isDefault", v.is_default)
    return e


def dim(e, x):
    dec(e, "dim", x.dim)
    dec(e, "dimIncrement", x.dim_increment)
    text(e, "dimIndex", x.dim_index)
    text(e, "dimName", x.dim_name)
    if x.dim_array_index is not None:
        a = etree.Element("dimArrayIndex")
        text(a, "headerEnumName", x.dim_array_index.header_enum_name)
        if x.dim_array_index.header_enum_name is None and not x.dim_array_index.enumerated_values:
            a.text = ""
        for v in x.dim_array_index.enumerated_values:
            a.append(value(v))
        e.append(a)


def properties(e, x):
    dec(e, "size", x.size)
    token(e, "access", x.access)
    token(e, "protection", x.protection)
    hexa(e, "resetValue", x.reset_value)
    hexa(e, "resetMask", x.reset_mask)


def write_constraint(e, w):
    if w is None:
        return
    c = etree.Element("writeConstraint")
    flag(c, "writeAsRead", w.write_as_read)
    flag(c, "useEnumeratedValues", w.use_enumerated_values)
    if w.range_ is not None:
        r = etree.Element("range")
        dec(r, "minimum", w.range_[0])
        dec(r, "maximum", w.range_[1])
        c.append(r)
    if w.write_as_read is None and w.use_enumerated_values is None and w.range_ is None:
        c.text = ""
    e.append(c)


def container(c: SVDEnumeratedValueContainer):
    e = etree.Element("enumeratedValues")
    derived(e, c)
    text(e, "name", c.name)
    text(e, "headerEnumName", c.header_enum_name)
    token(e, "usage", c.usage)
    if c.name is None and c.header_enum_name is None and c.usage is None and not c.enumerated_values:
        e.text = ""
    for v in c.enumerated_values:
        e.append(value(v))
    return e


def field(f: SVDField):
    e = etree.Element("field")
    derived(e, f)
    dim(e, f)
    leaf(e, "name", f.name)
    text(e, "description", f.description)
    dec(e, "bitOffset", f.bit_offset)
    dec(e, "bitWidth", f.bit_width)
    dec(e, "lsb", f.lsb)
    dec(e, "msb", f.msb)
    text(e, "bitRange", f.bit_range)
    token(e, "access", f.access)
    token(e, "modifiedWriteValues", f.modified_write_values)
    write_constraint(e, f.write_constraint)
    token(e, "readAction", f.read_action)
    for c in f.enumerated_value_containers:
        e.append(container(c))
    return e


def register(r: SVDRegister):
    e = etree.Element("register")
    derived(e, r)
    dim(e, r)
    leaf(e, "name", r.name)
    text(e, "displayName", r.display_name)
    text(e, "description", r.description)
    text(e, "alternateGroup", r.alternate_group)
    text(e, "alternateRegister", r.alternate_register)
    hexa(e, "addressOffset", r.address_offset)
    properties(e, r)
    token(e, "dataType", r.data_type)
    token(e, "modifiedWriteValues", r.modified_write_values)
    write_constraint(e, r.write_constraint)
    token(e, "readAction", r.read_action)
    if r.fields:
        fs = etree.Element("fields")
        for f in r.fields:
            fs.append(field(f))
        e.append(fs)
    return e


def cluster(c: SVDCluster) -> etree._Element:
    e = etree.Element("cluster")
    derived(e, c)
    dim(e, c)
    leaf(e, "name", c.name)
    text(e, "description", c.description)
    text(e, "alternateCluster", c.alternate_cluster)
    text(e, "headerStructName", c.header_struct_name)
    hexa(e, "addressOffset", c.address_offset)
    properties(e, c)
    for x in c.registers_clusters:
        e.append(register(x) if isinstance(x, SVDRegister) else cluster(x))
    return e


def address_block(b: SVDAddressBlock):
    e = etree.Element("addressBlock")
    hexa(e, "offset", b.offset)
    hexa(e, "size", b.size)
    token(e, "usage", b.usage)
    token(e, "protection", b.protection)
    return e


def interrupt(i: SVDInterrupt):
    e = etree.Element("interrupt")
    leaf(e, "name", i.name)
    text(e, "description", i.description)
    dec(e, "value", i.value)
    return e


def peripheral(p: SVDPeripheral):
    e = etree.Element("peripheral")
    derived(e, p)
    dim(e, p)
    leaf(e, "name", p.name)
    text(e, "version", p.version)
    text(e, "description", p.description)
    text(e, "alternatePeripheral", p.alternate_peripheral)
    text(e, "groupName", p.group_name)
    text(e, "prependToName", p.prepend_to_name)
    text(e, "appendToName", p.append_to_name)
    text(e, "headerStructName", p.header_struct_name)
    text(e, "disableCondition", p.disable_condition)
    hexa(e, "baseAddress", p.base_address)
    properties(e, p)
    for b in p.address_blocks:
        e.append(address_block(b))
    for i in p.interrupts:
        e.append(interrupt(i))
    if p.registers_clusters:
        rs = etree.Element("registers")
        for x in p.registers_clusters:
            rs.append(register(x) if isinstance(x, SVDRegister) else cluster(x))
        e.append(rs)
    return e


def sau(s: SVDSauRegionsConfig):
    e = etree.Element("sauRegionsConfig")
    if s.enabled is not None:
        e.set("enabled", "true" if s.enabled else "false")
    if s.protection_when_disabled is not None:
        e.set("protectionWhenDisabled", s.protection_when_disabled.value)
    if not s.regions:
        e.text = ""
    for r in s.regions:
        x = etree.Element("region")
        if r.enabled is not None:
            x.set("enabled", "true" if r.enabled else "false")
        if r.name is not None:
            x.set("name", r.name)
        hexa(x, "base", r.base)
        hexa(x, "limit", r.limit)
        token(x, "access", r.access)
        e.append(x)
    return e


def cpu(c: SVDCPU):
    e = etree.Element("cpu")
    token(e, "name", c.name)
    leaf(e, "revision", c.revision)
    token(e, "endian", c.endian)
    flag(e, "mpuPresent", c.mpu_present)
    flag(e, "fpuPresent", c.fpu_present)
    flag(e, "fpuDP", c.fpu_dp)
    flag(e, "dspPresent", c.dsp_present)
    flag(e, "icachePresent", c.icache_present)
    flag(e, "dcachePresent", c.dcache_present)
    flag(e, "itcmPresent", c.itcm_present)
    flag(e, "dtcmPresent", c.dtcm_present)
    flag(e, "vtorPresent", c.vtor_present)
    dec(e, "nvicPrioBits", c.nvic_prio_bits)
    flag(e, "vendorSystickConfig", c.vendor_systick_config)
    dec(e, "deviceNumInterrupts", c.device_num_interrupts)
    dec(e, "sauNumRegions", c.sau_num_regions)
    if c.sau_regions_config is not None:
        e.append(sau(c.sau_regions_config))
    return e


def device(d: SVDDevice):
    e = etree.Element("device", nsmap={"xs": XS})
    e.set(etree.QName(XS, "noNamespaceSchemaLocation"), d.xs_no_namespace_schema_location)
    e.set("schemaVersion", d.schema_version)
    text(e, "vendor", d.vendor)
    text(e, "vendorID", d.vendor_id)
    leaf(e, "name", d.name)
    text(e, "series", d.series)
    leaf(e, "version", d.version)
    leaf(e, "description", d.description)
    text(e, "licenseText", d.license_text)
    if d.cpu is not None:
        e.append(cpu(d.cpu))
    text(e, "headerSystemFilename", d.header_system_filename)
    text(e, "headerDefinitionsPrefix", d.header_definitions_prefix)
    dec(e, "addressUnitBits", d.address_unit_bits)
    dec(e, "width", d.width)
    properties(e, d)
    if d.peripherals:
        ps = etree.Element("peripherals")
        for p in d.peripherals:
            ps.append(peripheral(p))
        e.append(ps)
    return e


def code_device(device: SVDDevice):
    return SVDDeviceSerializer(device).to_xml()


def code_content(device: SVDDevice, pretty_print: bool, xml_declaration: bool):
    return Serializer.device_to_svd_content(device, pretty_print, xml_declaration)


def want_content(device: SVDDevice, pretty_print: bool, xml_declaration: bool):
    return etree.tostring(SVDDeviceSerializer(device).to_xml(), pretty_print=pretty_print, xml_declaration=xml_declaration, encoding="utf-8")


def code_text(device: SVDDevice, pretty_print: bool):
    return Serializer.device_to_svd_str(device, pretty_print)


def want_text(device: SVDDevice, pretty_print: bool):
    return Serializer.device_to_svd_content(device, pretty_print).decode()


def want_file(path: str, device: SVDDevice, pretty_print: bool, xml_declaration: bool):
    with open(path, "wb") as f:
        f.write(Serializer.device_to_svd_content(device, pretty_print, xml_declaration))


def code_file(path: str, device: SVDDevice, pretty_print: bool, xml_declaration: bool):
    Serializer.device_to_svd_file(path, device, pretty_print, xml_declaration)


def code_cluster(c: SVDCluster):
    return SVDClusterSerializer(c).to_xml()


def code_defaults(device: SVDDevice):
    return (Serializer.device_to_svd_content(device), Serializer.device_to_svd_str(device))


def want_defaults(device: SVDDevice):
    b = etree.tostring(SVDDeviceSerializer(device).to_xml(), pretty_print=False, xml_declaration=True, encoding="utf-8")
    return (b, b.decode())
