"""Reference semantics of processing, from the resolved (not yet finalised) elements to the processed device."""
import warnings

from svdsuite.model.parse import SVDCPU, SVDDevice, SVDSauRegion, SVDSauRegionsConfig
from svdsuite.model.process import (
    CPU, Cluster, Device, EnumeratedValue, EnumeratedValueContainer, Field, ICluster, IDevice, IEnumeratedValueContainer, IField, IPeripheral, IRegister,
    Peripheral, Register, SauRegion, SauRegionsConfig, WriteConstraint,
)
from svdsuite.model.types import AccessType, CPUNameType, ProtectionStringType
from svdsuite.process import Process, ProcessException, ProcessWarning, _InheritProperties, _ValidateAndFinalize
from svdsuite.resolve.resolver import Resolver


def first_of(a, b):
    return b if a is None else a


def warn():
    warnings.warn("process", ProcessWarning)


def process(parsed: SVDDevice):
    peripherals = Resolver(None, None).resolve_peripherals(parsed)
    device_cpu = cpu(parsed.cpu)
    size = first_of(parsed.size, 32)
    access = first_of(parsed.access, AccessType.READ_WRITE)
    protection = first_of(parsed.protection, ProtectionStringType.ANY)
    reset_value = first_of(parsed.reset_value, 0)
    reset_mask = first_of(parsed.reset_mask, 0xFFFFFFFF)
    for p in peripherals:
        if p.size is None:
            p.size = size
        if p.access is None:
            p.access = access
        if p.protection is None:
            p.protection = protection
        if p.reset_value is None:
            p.reset_value = reset_value
        if p.reset_mask is None:
            p.reset_mask = reset_mask
        inherit(p.registers_clusters, p.size, p.access, p.protection, p.reset_value, p.reset_mask)
    return Device(
        size=size,
        access=access,
        protection=protection,
        reset_value=reset_value,
        reset_mask=reset_mask,
        vendor=parsed.vendor,
        vendor_id=parsed.vendor_id,
        name=parsed.name,
        series=parsed.series,
        version=parsed.version,
        description=parsed.description,
        license_text=parsed.license_text,
        cpu=device_cpu,
        header_system_filename=parsed.header_system_filename,
        header_definitions_prefix=parsed.header_definitions_prefix,
        address_unit_bits=parsed.address_unit_bits,
        width=parsed.width,
        parsed=parsed,
        peripherals=final_peripherals(peripherals),
    )


def cpu(c: None | SVDCPU):
    if c is None:
        return None
    return CPU(
        name=CPUNameType.CM0PLUS if c.name == CPUNameType.CM0_PLUS else c.name,
        revision=c.revision,
        endian=c.endian,
        mpu_present=first_of(c.mpu_present, False),
        fpu_present=first_of(c.fpu_present, False),
        fpu_dp=first_of(c.fpu_dp, False),
        dsp_present=first_of(c.dsp_present, False),
        icache_present=first_of(c.icache_present, False),
        dcache_present=first_of(c.dcache_present, False),
        itcm_present=first_of(c.itcm_present, False),
        dtcm_present=first_of(c.dtcm_present, False),
        vtor_present=first_of(c.vtor_present, True),
        nvic_prio_bits=c.nvic_prio_bits,
        vendor_systick_config=c.vendor_systick_config,
        device_num_interrupts=c.device_num_interrupts,
        sau_num_regions=c.sau_num_regions,
        sau_regions_config=sau_config(c.sau_regions_config),
        parsed=c,
    )


def sau_config(s: None | SVDSauRegionsConfig):
    if s is None:
        return None
    return SauRegionsConfig(
        enabled=first_of(s.enabled, True),
        protection_when_disabled=first_of(s.protection_when_disabled, ProtectionStringType.SECURE),
        regions=[sau_region(r) for r in s.regions],
        parsed=s,
    )


def sau_region(r: SVDSauRegion):
    return SauRegion(enabled=first_of(r.enabled, True), name=r.name, base=r.base, limit=r.limit, access=r.access, parsed=r)


def inherit(registers_clusters: list[ICluster | IRegister], size, access, protection, reset_value, reset_mask):
    for rc in registers_clusters:
        if rc.size is None:
            rc.size = size
        if rc.access is None:
            rc.access = access
        if rc.protection is None:
            rc.protection = protection
        if rc.reset_value is None:
            rc.reset_value = reset_value
        if rc.reset_mask is None:
            rc.reset_mask = reset_mask
        if isinstance(rc, ICluster):
            inherit(rc.registers_clusters, rc.size, rc.access, rc.protection, rc.reset_value, rc.reset_mask)
        else:
            for f in rc.fields:
                if f.access is None:
                    f.access = rc.access
                if f.write_constraint is None:
                    f.write_constraint = rc.write_constraint


def to_byte(bits: int):
    if bits % 8 != 0:
        raise ProcessException("bits")
    return bits // 8


# -- peripherals -------------------------------------------------------


def final_peripherals(i_peripherals: list[IPeripheral]):
    return all_peripherals(i_peripherals, final_peripheral)


def all_peripherals(i_peripherals: list[IPeripheral], one):
    lookup: dict[str, Peripheral] = {}
    out: list[Peripheral] = []
    for ip in i_peripherals:
        p = one(ip)
        if p is None:
            continue
        if p.name in lookup:
            raise ProcessException("duplicate")
        lookup[p.name] = p
        out.append(p)
    out = sorted(out, key=lambda p: (p.base_address, p.name))
    v = _ValidateAndFinalize()
    if hasattr(v, "_check_peripheral_address_overlaps"):
        v._check_peripheral_address_overlaps(out, lookup)
    return out


def final_peripheral(ip: IPeripheral):
    return peripheral(ip, final_registers_clusters)


def peripheral(ip: IPeripheral, content):
    children = content(ip.registers_clusters, ip.base_address)
    if len(children) == 0:
        warn()
        return None
    if ip.base_address % 4 != 0:
        warn()
    if ip.size % 8 != 0:
        warn()
        return None
    if len(ip.address_blocks) == 0:
        raise ProcessException("no address block")
    for i in range(1, len(ip.address_blocks)):
        a = ip.address_blocks[i - 1]
        b = ip.address_blocks[i]
        if b.offset < a.offset + a.size:
            warn()
    end_specified = max(ip.base_address + ab.offset + ab.size - 1 for ab in ip.address_blocks)
    end_effective = max(ip.base_address + c.address_offset + extent(c) - 1 for c in children)
    return Peripheral(
        name=ip.name,
        version=ip.version,
        description=ip.description,
        alternate_peripheral=ip.alternate_peripheral,
        group_name=ip.group_name,
        prepend_to_name=ip.prepend_to_name,
        append_to_name=ip.append_to_name,
        header_struct_name=ip.header_struct_name,
        disable_condition=ip.disable_condition,
        base_address=ip.base_address,
        address_blocks=ip.address_blocks,
        interrupts=ip.interrupts,
        parsed=ip.parsed,
        size=ip.size,
        access=ip.access,
        protection=ip.protection,
        reset_value=ip.reset_value,
        reset_mask=ip.reset_mask,
        end_address=end_specified,
        end_address_effective=end_effective,
        peripheral_size=sum(ab.size for ab in ip.address_blocks),
        peripheral_size_effective=end_effective - ip.base_address + 1,
        registers_clusters=children,
        registers=all_registers(children),
    )


def extent(c: Cluster | Register):
    """number of bytes an element occupies"""
    if isinstance(c, Register):
        return to_byte(c.size)
    return c.cluster_size


def all_registers(registers_clusters: list[Cluster | Register]) -> list[Register]:
    out: list[Register] = []
    for c in registers_clusters:
        if isinstance(c, Register):
            out.append(c)
        elif isinstance(c, Cluster):
            out.extend(all_registers(c.registers_clusters))
    return sorted(out, key=lambda r: (r.base_address, r.name))


# -- registers and clusters ---------------------------------------------


def final_registers_clusters(i_registers_clusters: list[ICluster | IRegister], parent_base: int) -> list[Cluster | Register]:
    return all_registers_clusters(i_registers_clusters, parent_base, final_register_cluster)


def all_registers_clusters(i_registers_clusters: list[ICluster | IRegister], parent_base: int, one):
    registers: dict[str, Register] = {}
    clusters: dict[str, Cluster] = {}
    out: list[Cluster | Register] = []
    for irc in i_registers_clusters:
        rc = one(irc, parent_base)
        if rc is None:
            continue
        name = rc.name
        if isinstance(rc, Register) and rc.alternate_group:
            name = f"{rc.name}_{rc.alternate_group}"
        if name in registers or name in clusters:
            raise ProcessException("duplicate")
        if isinstance(rc, Register):
            registers[name] = rc
        else:
            clusters[name] = rc
        out.append(rc)
    out = sorted(out, key=order)
    v = _ValidateAndFinalize()
    if hasattr(v, "_check_registers_clusters_address_overlaps"):
        v._check_registers_clusters_address_overlaps(out, registers, clusters)
    return out


def last_byte(c: Cluster | Register):
    if isinstance(c, Register):
        return c.base_address + to_byte(c.size) - 1
    return c.end_address


def order(rc: Cluster | Register):
    group = rc.alternate_group if isinstance(rc, Register) else None
    return (rc.base_address, (0, "") if group is None else (1, group), rc.name)


def final_register_cluster(irc: ICluster | IRegister, parent_base: int):
    return register_cluster(irc, parent_base, final_registers_clusters, final_fields)


def register_cluster(irc: ICluster | IRegister, parent_base: int, content, bits):
    base = parent_base + irc.address_offset
    if irc.size is None:
        raise ProcessException("no size")
    if irc.size % 8 != 0:
        warn()
        return None
    n = to_byte(irc.size)
    if n not in (1, 2, 4, 8, 16):
        raise ProcessException("size")
    if irc.address_offset % (n if n < 4 else 4) != 0:
        warn()
    if isinstance(irc, ICluster):
        children = content(irc.registers_clusters, base)
        if len(children) == 0:
            warn()
            return None
        end = max(c.base_address + extent(c) - 1 for c in children)
        return Cluster(
            name=irc.name,
            description=irc.description,
            alternate_cluster=irc.alternate_cluster,
            header_struct_name=irc.header_struct_name,
            address_offset=irc.address_offset,
            parsed=irc.parsed,
            size=irc.size,
            access=irc.access,
            protection=irc.protection,
            reset_value=irc.reset_value,
            reset_mask=irc.reset_mask,
            registers_clusters=children,
            base_address=base,
            end_address=end,
            cluster_size=end - base + 1,
        )
    if irc.name.lower() == "reserved":
        warn()
        return None
    if irc.alternate_register is not None and irc.alternate_group is not None:
        raise ProcessException("both alternates")
    return Register(
        name=irc.name,
        display_name=irc.display_name,
        description=irc.description,
        alternate_group=irc.alternate_group,
        alternate_register=irc.alternate_register,
        address_offset=irc.address_offset,
        data_type=irc.data_type,
        modified_write_values=irc.modified_write_values,
        write_constraint=irc.write_constraint,
        read_action=irc.read_action,
        parsed=irc.parsed,
        size=irc.size,
        access=irc.access,
        protection=irc.protection,
        reset_value=irc.reset_value,
        reset_mask=irc.reset_mask,
        fields=bits(irc.fields, irc.size),
        base_address=base,
    )


# -- fields ---------------------------------------------------------------


def final_fields(i_fields: list[IField], size: int):
    return all_fields(i_fields, size, final_containers)


def all_fields(i_fields: list[IField], size: int, containers):
    names: set[str] = set()
    out: list[Field] = []
    for f in i_fields:
        if f.name.lower() == "reserved":
            warn()
            continue
        if f.name in names:
            raise ProcessException("duplicate")
        names.add(f.name)
        out.append(
            Field(
                name=f.name,
                description=f.description,
                lsb=f.lsb,
                msb=f.msb,
                modified_write_values=f.modified_write_values,
                write_constraint=f.write_constraint,
                read_action=f.read_action,
                parsed=f.parsed,
                access=f.access,
                bit_offset=f.lsb,
                bit_width=f.msb - f.lsb + 1,
                bit_range=(f.msb, f.lsb),
                enumerated_value_containers=containers(f.enumerated_value_containers, f.lsb, f.msb),
            )
        )
    out = sorted(out, key=lambda f: f.lsb)
    read_fields: list[Field] = []
    write_fields: list[Field] = []
    for f in out:
        if f.msb >= size:
            warn()
        reads = f.access != AccessType.WRITE_ONLY
        writes = f.access != AccessType.READ_ONLY
        if f.access == AccessType.WRITE_ONCE:
            reads = True
        if reads:
            for g in read_fields:
                if f.lsb <= g.msb and g.lsb <= f.msb:
                    raise ProcessException("overlap")
            read_fields.append(f)
        if writes:
            for g in write_fields:
                if f.lsb <= g.msb and g.lsb <= f.msb:
                    raise ProcessException("overlap")
            write_fields.append(f)
    return out


def final_containers(containers: list[IEnumeratedValueContainer], lsb: int, msb: int):
    out: list[EnumeratedValueContainer] = []
    for c in containers:
        values: list[EnumeratedValue] = []
        for v in c.enumerated_values:
            if v.value is None:
                raise ProcessException("no value")
            if v.value < 0 or v.value > 2 ** (msb - lsb + 1) - 1:
                warn()
                continue
            values.append(EnumeratedValue(name=v.name, description=v.description, parsed=v.parsed, value=v.value))
        out.append(
            EnumeratedValueContainer(
                name=c.name, header_enum_name=c.header_enum_name, usage=c.usage, parsed=c.parsed, enumerated_values=values
            )
        )
    return sorted(out, key=lambda c: (c.usage.value, len(c.enumerated_values)))


# -- overlapping address ranges -------------------------------------------


def overlapping_peripherals(self, finalized_peripherals: list[Peripheral], peripheral_lookup: dict[str, Peripheral]):
    before: list[Peripheral] = []
    for p in finalized_peripherals:
        allowed = self._compute_allowed_alternate_peripheral_names(p, peripheral_lookup)
        for q in before:
            if p.base_address <= q.end_address_effective or p.base_address <= q.end_address:
                if allowed:
                    if q.name not in allowed:
                        warn()
                else:
                    other = peripheral_lookup[q.name].alternate_peripheral
                    if not other or other != p.name:
                        warn()
        before.append(p)


def overlapping_registers_clusters(self, finalized_rc: list[Cluster | Register], register_lookup: dict[str, Register],
                                   cluster_lookup: dict[str, Cluster]):
    before: list[Cluster | Register] = []
    for rc in finalized_rc:
        if isinstance(rc, Register):
            if rc.alternate_group is not None:
                continue
            allowed = self._compute_allowed_alternate_register_names(rc, register_lookup)
        else:
            allowed = self._compute_allowed_alternate_cluster_names(rc, cluster_lookup)
        for q in before:
            if rc.base_address <= last_byte(q):
                if allowed:
                    if q.name not in allowed:
                        warn()
                elif isinstance(rc, Register):
                    other = register_lookup.get(q.name, None)
                    if other is None or other.alternate_register != rc.name:
                        warn()
                else:
                    other = cluster_lookup.get(q.name, None)
                    if other is None or other.alternate_cluster != rc.name:
                        warn()
        before.append(rc)


# -- alternates: the names reachable from an element through the alternate relation, in either direction -------


def peripheral_alternates_start(periph: Peripheral, peripheral_lookup: dict[str, Peripheral]):
    if periph.alternate_peripheral is None:
        return set()
    return [periph.alternate_peripheral]


def peripheral_alternates_step(periph: Peripheral, peripheral_lookup: dict[str, Peripheral], current: str):
    out = [name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current]
    if current in peripheral_lookup:
        primary = peripheral_lookup[current].alternate_peripheral
        if primary is not None:
            out.append(primary)
    return out


def register_alternates_start(register: Register, register_lookup: dict[str, Register]):
    if register.alternate_register is None:
        return set()
    return [register.alternate_register]


def register_alternates_step(register: Register, register_lookup: dict[str, Register], current: str):
    out = [name for name, p in register_lookup.items() if p.alternate_register == current]
    if current in register_lookup:
        primary = register_lookup[current].alternate_register
        if primary is not None:
            out.append(primary)
    return out


def cluster_alternates_start(cluster: Cluster, cluster_lookup: dict[str, Cluster]):
    if cluster.alternate_cluster is None:
        return set()
    return [cluster.alternate_cluster]


def cluster_alternates_step(cluster: Cluster, cluster_lookup: dict[str, Cluster], current: str):
    out = [name for name, p in cluster_lookup.items() if p.alternate_cluster == current]
    if current in cluster_lookup:
        primary = cluster_lookup[current].alternate_cluster
        if primary is not None:
            out.append(primary)
    return out


# -- one step, given the steps below it ----------------------------------------


def step_peripheral(self: _ValidateAndFinalize, i_peripheral: IPeripheral):
    return peripheral(i_peripheral, self._validate_and_finalize_registers_clusters)


def step_register_cluster(self: _ValidateAndFinalize, i_reg_cluster: ICluster | IRegister, parent_base: int):
    return register_cluster(i_reg_cluster, parent_base, self._validate_and_finalize_registers_clusters, self._validate_and_finalize_fields)


def step_peripherals(self: _ValidateAndFinalize, i_peripherals: list[IPeripheral]):
    return all_peripherals(i_peripherals, self._validate_and_finalize_peripheral)


def step_registers_clusters(self: _ValidateAndFinalize, i_registers_clusters: list[ICluster | IRegister], parent_base: int):
    return all_registers_clusters(i_registers_clusters, parent_base, self._validate_and_finalize_register_cluster)


def step_fields(self: _ValidateAndFinalize, i_fields: list[IField], reg_size: int):
    return all_fields(i_fields, reg_size, self._validate_and_finalize_enum_value_containers)


def step_containers(self: _ValidateAndFinalize, i_enum_containers: list[IEnumeratedValueContainer], lsb: int, msb: int):
    return final_containers(i_enum_containers, lsb, msb)


def step_registers(self: _ValidateAndFinalize, registers_clusters: list[Cluster | Register]):
    out: list[Register] = []
    for c in registers_clusters:
        if isinstance(c, Register):
            out.append(c)
        else:
            out.extend(self._extract_registers(c.registers_clusters))
    return sorted(out, key=lambda r: (r.base_address, r.name))


def step_inherit(self: _InheritProperties, registers_clusters: list[ICluster | IRegister], size, access, protection, reset_value, reset_mask):
    for rc in registers_clusters:
        if rc.size is None:
            rc.size = size
        if rc.access is None:
            rc.access = access
        if rc.protection is None:
            rc.protection = protection
        if rc.reset_value is None:
            rc.reset_value = reset_value
        if rc.reset_mask is None:
            rc.reset_mask = reset_mask
        if isinstance(rc, ICluster):
            self._inherit_properties_registers_clusters(rc.registers_clusters, rc.size, rc.access, rc.protection, rc.reset_value, rc.reset_mask)
        else:
            for f in rc.fields:
                if f.access is None:
                    f.access = rc.access
                if f.write_constraint is None:
                    f.write_constraint = rc.write_constraint
