"""Reference semantics of reading a device description (interpreted by the analysis, never executed)."""
import warnings

from svdsuite.parse import ParserException, ParserWarning
from svdsuite.model.parse import (
    SVDCPU, SVDAddressBlock, SVDCluster, SVDDevice, SVDDimArrayIndex, SVDEnumeratedValue, SVDEnumeratedValueContainer,
    SVDField, SVDInterrupt, SVDPeripheral, SVDRegister, SVDSauRegion, SVDSauRegionsConfig, SVDWriteConstraint,
)
from svdsuite.model.types import (
    AccessType, CPUNameType, DataTypeType, EndianType, EnumeratedTokenType, EnumUsageType, ModifiedWriteValuesType,
    ProtectionStringType, ReadActionType, SauAccessType,
)


def raw(el, tag):
    found = el.findall(tag)
    if len(found) > 1:
        warnings.warn("only the last one is used", ParserWarning)
    if not found:
        return None
    return found[-1].text


def verbatim(el, tag):
    return raw(el, tag)


def text(el, tag):
    t = raw(el, tag)
    if t is None:
        return None
    s = t.strip()
    if s != t:
        warnings.warn("stripped", ParserWarning)
    return s


def need(el, tag):
    t = text(el, tag)
    if t is None:
        raise ParserException("missing")
    return t


def attribute(el, name):
    t = el.get(name)
    if t is None:
        return None
    s = t.strip()
    if s != t:
        warnings.warn("stripped", ParserWarning)
    return s


def element_text(self, element_name: str, parent, strip: bool, optional: bool):
    t = text(parent, element_name) if strip else raw(parent, element_name)
    if t is None and not optional:
        raise ParserException("missing")
    return t


def element_attribute(self, attribute_name: str, element, strip: bool, optional: bool):
    t = attribute(element, attribute_name) if strip else element.get(attribute_name)
    if t is None and not optional:
        raise ParserException("missing")
    return t


def number(t):
    if t is None:
        return None
    t = t.replace("#", "0b")
    try:
        return int(t, 0)
    except ValueError:
        try:
            return int(t)
        except ValueError:
            raise NotImplementedError("number")


def int_of(value: None | str, base: int):
    if value is None:
        return None
    value = value.replace("#", "0b")
    try:
        return int(value, base)
    except ValueError:
        try:
            return int(value)
        except ValueError:
            raise NotImplementedError("number")


def boolean(t):
    if t is None:
        return None
    if t == "1":
        return True
    if t == "0":
        return False
    low = t.lower()
    if low == "true":
        return True
    if low == "false":
        return False
    raise NotImplementedError("boolean")


def bool_of(value: None | str, default: None | bool):
    if value is None:
        if default is None:
            raise NotImplementedError("boolean")
        return default
    return boolean(value)


def token(enum, t):
    return None if t is None else enum.from_str(t)


def device(tree):
    d = tree.getroot()
    location = ""
    prefix = "xs" if "xs" in d.nsmap else "xsi"
    if prefix in d.nsmap:
        loc = attribute(d, f"{{{d.nsmap[prefix]}}}noNamespaceSchemaLocation")
        if loc is None:
            warnings.warn("no schema location", ParserWarning)
        else:
            location = loc
    else:
        warnings.warn("no schema location", ParserWarning)
    version = attribute(d, "schemaVersion")
    if version is None:
        raise ParserException("missing")
    description = verbatim(d, "description")
    if description is None:
        warnings.warn("no description", ParserWarning)
        description = ""
    result = SVDDevice(
        xs_no_namespace_schema_location=location,
        schema_version=version,
        vendor=text(d, "vendor"),
        vendor_id=text(d, "vendorID"),
        name=need(d, "name"),
        series=text(d, "series"),
        version=need(d, "version"),
        description=description,
        license_text=verbatim(d, "licenseText"),
        cpu=cpu(d.find("cpu")),
        header_system_filename=text(d, "headerSystemFilename"),
        header_definitions_prefix=text(d, "headerDefinitionsPrefix"),
        address_unit_bits=number(need(d, "addressUnitBits")),
        width=number(need(d, "width")),
        size=number(text(d, "size")),
        access=token(AccessType, text(d, "access")),
        protection=token(ProtectionStringType, text(d, "protection")),
        reset_value=number(text(d, "resetValue")),
        reset_mask=number(text(d, "resetMask")),
        peripherals=peripherals(d),
    )
    if result.cpu is not None:
        result.cpu.parent = result
    for p in result.peripherals:
        p.parent = result
    return result


def peripherals(d):
    el = d.find("peripherals")
    if el is None:
        raise ParserException("missing")
    return [peripheral(p) for p in el.findall("peripheral")]


def cpu(c):
    if c is None:
        return None
    result = SVDCPU(
        name=CPUNameType.from_str(need(c, "name")),
        revision=need(c, "revision"),
        endian=EndianType.from_str(need(c, "endian")),
        mpu_present=boolean(text(c, "mpuPresent")),
        fpu_present=boolean(text(c, "fpuPresent")),
        fpu_dp=boolean(text(c, "fpuDP")),
        dsp_present=boolean(text(c, "dspPresent")),
        icache_present=boolean(text(c, "icachePresent")),
        dcache_present=boolean(text(c, "dcachePresent")),
        itcm_present=boolean(text(c, "itcmPresent")),
        dtcm_present=boolean(text(c, "dtcmPresent")),
        vtor_present=boolean(text(c, "vtorPresent")),
        nvic_prio_bits=number(need(c, "nvicPrioBits")),
        vendor_systick_config=boolean(need(c, "vendorSystickConfig")),
        device_num_interrupts=number(text(c, "deviceNumInterrupts")),
        sau_num_regions=number(text(c, "sauNumRegions")),
        sau_regions_config=sau_config(c.find("sauRegionsConfig")),
    )
    if result.sau_regions_config is not None:
        result.sau_regions_config.parent = result
    return result


def sau_config(s):
    if s is None:
        return None
    result = SVDSauRegionsConfig(
        enabled=boolean(attribute(s, "enabled")),
        protection_when_disabled=token(ProtectionStringType, attribute(s, "protectionWhenDisabled")),
        regions=[sau_region(r) for r in s.findall("region")],
    )
    for r in result.regions:
        r.parent = result
    return result


def sau_region(r):
    return SVDSauRegion(
        enabled=boolean(attribute(r, "enabled")),
        name=attribute(r, "name"),
        base=number(need(r, "base")),
        limit=number(need(r, "limit")),
        access=SauAccessType.from_str(need(r, "access")),
    )


def peripheral(p):
    children = []
    for container in p.findall("registers"):
        children.extend(registers_clusters(container))
    result = SVDPeripheral(
        derived_from=attribute(p, "derivedFrom"),
        name=need(p, "name"),
        version=text(p, "version"),
        description=verbatim(p, "description"),
        alternate_peripheral=text(p, "alternatePeripheral"),
        group_name=text(p, "groupName"),
        prepend_to_name=text(p, "prependToName"),
        append_to_name=text(p, "appendToName"),
        header_struct_name=text(p, "headerStructName"),
        disable_condition=verbatim(p, "disableCondition"),
        base_address=number(need(p, "baseAddress")),
        address_blocks=[address_block(a) for a in p.findall("addressBlock")],
        interrupts=[interrupt(i) for i in p.findall("interrupt")],
        registers_clusters=children,
        dim=number(text(p, "dim")),
        dim_increment=number(text(p, "dimIncrement")),
        dim_index=text(p, "dimIndex"),
        dim_name=text(p, "dimName"),
        dim_array_index=dim_array_index(p.find("dimArrayIndex")),
        size=number(text(p, "size")),
        access=token(AccessType, text(p, "access")),
        protection=token(ProtectionStringType, text(p, "protection")),
        reset_value=number(text(p, "resetValue")),
        reset_mask=number(text(p, "resetMask")),
    )
    for x in result.address_blocks:
        x.parent = result
    for x in result.interrupts:
        x.parent = result
    for x in result.registers_clusters:
        x.parent = result
    if result.dim_array_index is not None:
        result.dim_array_index.parent = result
    return result


def address_block(a):
    offset = number(text(a, "offset"))
    return SVDAddressBlock(
        offset=0 if offset is None else offset,
        size=number(need(a, "size")),
        usage=EnumeratedTokenType.from_str(need(a, "usage")),
        protection=token(ProtectionStringType, text(a, "protection")),
    )


def interrupt(i):
    value = text(i, "value")
    if value is None:
        warnings.warn("no interrupt value", ParserWarning)
    return SVDInterrupt(
        name=need(i, "name"),
        description=verbatim(i, "description"),
        value=0 if value is None else number(value),
    )


def registers_clusters(parent) -> list[SVDCluster | SVDRegister]:
    out = []
    for child in parent:
        if child.tag == "register":
            out.append(register(child))
        elif child.tag == "cluster":
            out.append(cluster(child))
    return out


def register(r):
    result = SVDRegister(
        derived_from=attribute(r, "derivedFrom"),
        name=need(r, "name"),
        display_name=text(r, "displayName"),
        description=verbatim(r, "description"),
        alternate_group=text(r, "alternateGroup"),
        alternate_register=text(r, "alternateRegister"),
        address_offset=number(need(r, "addressOffset")),
        data_type=token(DataTypeType, text(r, "dataType")),
        modified_write_values=token(ModifiedWriteValuesType, text(r, "modifiedWriteValues")),
        write_constraint=write_constraint(r.find("writeConstraint")),
        read_action=token(ReadActionType, text(r, "readAction")),
        fields=[field(f) for container in r.findall("fields") for f in container.findall("field")],
        dim=number(text(r, "dim")),
        dim_increment=number(text(r, "dimIncrement")),
        dim_index=text(r, "dimIndex"),
        dim_name=text(r, "dimName"),
        dim_array_index=dim_array_index(r.find("dimArrayIndex")),
        size=number(text(r, "size")),
        access=token(AccessType, text(r, "access")),
        protection=token(ProtectionStringType, text(r, "protection")),
        reset_value=number(text(r, "resetValue")),
        reset_mask=number(text(r, "resetMask")),
    )
    if result.write_constraint is not None:
        result.write_constraint.parent = result
    for x in result.fields:
        x.parent = result
    if result.dim_array_index is not None:
        result.dim_array_index.parent = result
    return result


def cluster(c):
    result = SVDCluster(
        derived_from=attribute(c, "derivedFrom"),
        name=need(c, "name"),
        description=verbatim(c, "description"),
        alternate_cluster=text(c, "alternateCluster"),
        header_struct_name=text(c, "headerStructName"),
        address_offset=number(need(c, "addressOffset")),
        registers_clusters=registers_clusters(c),
        dim=number(text(c, "dim")),
        dim_increment=number(text(c, "dimIncrement")),
        dim_index=text(c, "dimIndex"),
        dim_name=text(c, "dimName"),
        dim_array_index=dim_array_index(c.find("dimArrayIndex")),
        size=number(text(c, "size")),
        access=token(AccessType, text(c, "access")),
        protection=token(ProtectionStringType, text(c, "protection")),
        reset_value=number(text(c, "resetValue")),
        reset_mask=number(text(c, "resetMask")),
    )
    for x in result.registers_clusters:
        x.parent = result
    if result.dim_array_index is not None:
        result.dim_array_index.parent = result
    return result


def field(f):
    result = SVDField(
        derived_from=attribute(f, "derivedFrom"),
        name=need(f, "name"),
        description=verbatim(f, "description"),
        bit_offset=number(text(f, "bitOffset")),
        bit_width=number(text(f, "bitWidth")),
        lsb=number(text(f, "lsb")),
        msb=number(text(f, "msb")),
        bit_range=text(f, "bitRange"),
        access=token(AccessType, text(f, "access")),
        modified_write_values=token(ModifiedWriteValuesType, text(f, "modifiedWriteValues")),
        write_constraint=write_constraint(f.find("writeConstraint")),
        read_action=token(ReadActionType, text(f, "readAction")),
        enumerated_value_containers=[enum_container(e) for e in f.findall("enumeratedValues")],
        dim=number(text(f, "dim")),
        dim_increment=number(text(f, "dimIncrement")),
        dim_index=text(f, "dimIndex"),
        dim_name=text(f, "dimName"),
        dim_array_index=dim_array_index(f.find("dimArrayIndex")),
    )
    if result.write_constraint is not None:
        result.write_constraint.parent = result
    for x in result.enumerated_value_containers:
        x.parent = result
    if result.dim_array_index is not None:
        result.dim_array_index.parent = result
    return result


def write_constraint(w):
    if w is None:
        return None
    limits = None
    r = w.find("range")
    if r is not None:
        limits = (number(need(r, "minimum")), number(need(r, "maximum")))
    return SVDWriteConstraint(
        write_as_read=boolean(text(w, "writeAsRead")),
        use_enumerated_values=boolean(text(w, "useEnumeratedValues")),
        range_=limits,
    )


def enum_container(e):
    result = SVDEnumeratedValueContainer(
        derived_from=attribute(e, "derivedFrom"),
        name=text(e, "name"),
        header_enum_name=text(e, "headerEnumName"),
        usage=token(EnumUsageType, text(e, "usage")),
        enumerated_values=[enumerated_value(v) for v in e.findall("enumeratedValue")],
    )
    for x in result.enumerated_values:
        x.parent = result
    return result


def dim_array_index(d):
    if d is None:
        return None
    result = SVDDimArrayIndex(
        header_enum_name=text(d, "headerEnumName"),
        enumerated_values=[enumerated_value(v) for v in d.findall("enumeratedValue")],
    )
    for x in result.enumerated_values:
        x.parent = result
    return result


def enumerated_value(v):
    return SVDEnumeratedValue(
        name=need(v, "name"),
        description=verbatim(v, "description"),
        value=text(v, "value"),
        is_default=boolean(text(v, "isDefault")),
    )
