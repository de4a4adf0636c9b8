"""Reference semantics of turning a processed device back into a description (interpreted by the analysis, never executed)."""
from svdsuite.model.parse import (
    SVDCPU, SVDAddressBlock, SVDCluster, SVDDevice, SVDEnumeratedValue, SVDEnumeratedValueContainer,
    SVDField, SVDInterrupt, SVDPeripheral, SVDRegister, SVDSauRegion, SVDSauRegionsConfig, SVDWriteConstraint,
)
from svdsuite.model.process import CPU, Cluster, Device, EnumeratedValueContainer, Field, Peripheral, Register
from svdsuite.process import Process


def adopt(parent, children):
    for c in children:
        c.parent = parent
    return parent


def write_constraint(w):
    if w is None:
        return None
    return SVDWriteConstraint(write_as_read=w.write_as_read, use_enumerated_values=w.use_enumerated_values, range_=w.range_)


def container(c: EnumeratedValueContainer):
    vs = []
    for v in c.enumerated_values:
        vs.append(SVDEnumeratedValue(name=v.name, description=v.description, value=str(v.value), is_default=False))
    return adopt(SVDEnumeratedValueContainer(name=c.name, header_enum_name=c.header_enum_name, usage=c.usage, enumerated_values=vs), vs)


def field(f: Field):
    cs = [container(c) for c in f.enumerated_value_containers]
    w = write_constraint(f.write_constraint)
    out = SVDField(name=f.name, description=f.description, lsb=f.lsb, msb=f.msb, access=f.access,
                   modified_write_values=f.modified_write_values, write_constraint=w, read_action=f.read_action,
                   enumerated_value_containers=cs)
    if w is not None:
        w.parent = out
    return adopt(out, cs)


def register(r: Register):
    fs = [field(f) for f in r.fields]
    w = write_constraint(r.write_constraint)
    out = SVDRegister(name=r.name, display_name=r.display_name, description=r.description, alternate_group=r.alternate_group,
                      alternate_register=r.alternate_register, address_offset=r.address_offset, size=r.size, access=r.access,
                      protection=r.protection, reset_value=r.reset_value, reset_mask=r.reset_mask, data_type=r.data_type,
                      modified_write_values=r.modified_write_values, write_constraint=w, read_action=r.read_action, fields=fs)
    if w is not None:
        w.parent = out
    return adopt(out, fs)


def cluster(c: Cluster) -> SVDCluster:
    xs: list[SVDRegister | SVDCluster] = []
    for x in c.registers_clusters:
        xs.append(register(x) if isinstance(x, Register) else cluster(x))
    return adopt(SVDCluster(name=c.name, description=c.description, alternate_cluster=c.alternate_cluster,
                            header_struct_name=c.header_struct_name, address_offset=c.address_offset, size=c.size, access=c.access,
                            protection=c.protection, reset_value=c.reset_value, reset_mask=c.reset_mask, registers_clusters=xs), xs)


def peripheral(p: Peripheral):
    bs = [SVDAddressBlock(offset=b.offset, size=b.size, usage=b.usage, protection=b.protection) for b in p.address_blocks]
    ns = [SVDInterrupt(name=i.name, description=i.description, value=i.value) for i in p.interrupts]
    xs: list[SVDRegister | SVDCluster] = []
    for x in p.registers_clusters:
        xs.append(register(x) if isinstance(x, Register) else cluster(x))
    out = SVDPeripheral(name=p.name, version=p.version, description=p.description, alternate_peripheral=p.alternate_peripheral,
                        group_name=p.group_name, prepend_to_name=p.prepend_to_name, append_to_name=p.append_to_name,
                        header_struct_name=p.header_struct_name, disable_condition=p.disable_condition, base_address=p.base_address,
                        size=p.size, access=p.access, protection=p.protection, reset_value=p.reset_value, reset_mask=p.reset_mask,
                        address_blocks=bs, interrupts=ns, registers_clusters=xs)
    adopt(out, bs)
    adopt(out, ns)
    return adopt(out, xs)


def cpu(c: CPU):
    s = None
    if c.sau_regions_config is not None:
        rs = [SVDSauRegion(enabled=r.enabled, name=r.name, base=r.base, limit=r.limit, access=r.access)
              for r in c.sau_regions_config.regions]
        s = adopt(SVDSauRegionsConfig(enabled=c.sau_regions_config.enabled,
                                      protection_when_disabled=c.sau_regions_config.protection_when_disabled, regions=rs), rs)
    out = SVDCPU(name=c.name, revision=c.revision, endian=c.endian, mpu_present=c.mpu_present, fpu_present=c.fpu_present,
                 fpu_dp=c.fpu_dp, dsp_present=c.dsp_present, icache_present=c.icache_present, dcache_present=c.dcache_present,
                 itcm_present=c.itcm_present, dtcm_present=c.dtcm_present, vtor_present=c.vtor_present,
                 nvic_prio_bits=c.nvic_prio_bits, vendor_systick_config=c.vendor_systick_config,
                 device_num_interrupts=c.device_num_interrupts, sau_num_regions=c.sau_num_regions, sau_regions_config=s)
    if s is not None:
        s.parent = out
    return out


def device(device: Device):
    d = device
    ps = [peripheral(p) for p in d.peripherals]
    c = cpu(d.cpu) if d.cpu is not None else None
    out = SVDDevice(xs_no_namespace_schema_location="CMSIS-SVD.xsd", schema_version="1.3", vendor=d.vendor, vendor_id=d.vendor_id,
                    name=d.name, series=d.series, version=d.version, description=d.description, license_text=d.license_text,
                    cpu=c, header_system_filename=d.header_system_filename, header_definitions_prefix=d.header_definitions_prefix,
                    address_unit_bits=d.address_unit_bits, width=d.width, peripherals=ps, size=d.size, access=d.access,
                    protection=d.protection, reset_value=d.reset_value, reset_mask=d.reset_mask)
    if c is not None:
        c.parent = out
    return adopt(out, ps)




def entry(self: Process):
    return device(self.get_processed_device())
