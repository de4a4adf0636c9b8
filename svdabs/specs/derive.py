"""Reference semantics of one resolved element: what a derived element takes from its base, what it computes from its
dimension index, and where its bits lie."""
import re
import warnings

from svdsuite.model.parse import (
    SVDAddressBlock, SVDCluster, SVDField, SVDInterrupt, SVDPeripheral, SVDRegister, SVDWriteConstraint,
)
from svdsuite.model.process import (
    AddressBlock, ICluster, IField, IPeripheral, IRegister, Interrupt, WriteConstraint,
)
from svdsuite.model.types import ModifiedWriteValuesType, ProtectionStringType
from svdsuite.process import Process, ProcessException, ProcessWarning, _ProcessDimension


def warn():
    warnings.warn("process", ProcessWarning)


def own(a, b):
    return b if a is None else a


def at(origin, step, index):
    if step is None:
        return origin
    return origin + step * index


def peripheral(self, index: int, name: str, parsed: SVDPeripheral, base: None | IPeripheral):
    step = own(parsed.dim_increment, base.dim_increment if base is not None else None)
    blocks = [address_block(b) for b in parsed.address_blocks]
    blocks = sorted(blocks, key=lambda b: b.offset)
    if len(parsed.address_blocks) == 0:
        blocks = base.address_blocks if base is not None else []
    return IPeripheral(
        dim=own(parsed.dim, base.dim if base is not None else None),
        dim_index=own(parsed.dim_index, base.dim_index if base is not None else None),
        dim_increment=step,
        size=own(parsed.size, base.size if base is not None else None),
        access=own(parsed.access, base.access if base is not None else None),
        protection=own(parsed.protection, base.protection if base is not None else None),
        reset_value=own(parsed.reset_value, base.reset_value if base is not None else None),
        reset_mask=own(parsed.reset_mask, base.reset_mask if base is not None else None),
        name=name,
        version=own(parsed.version, base.version if base is not None else None),
        description=own(parsed.description, base.description if base is not None else None),
        alternate_peripheral=own(parsed.alternate_peripheral, base.alternate_peripheral if base is not None else None),
        group_name=own(parsed.group_name, base.group_name if base is not None else None),
        prepend_to_name=own(parsed.prepend_to_name, base.prepend_to_name if base is not None else None),
        append_to_name=own(parsed.append_to_name, base.append_to_name if base is not None else None),
        header_struct_name=parsed.header_struct_name,
        disable_condition=own(parsed.disable_condition, base.disable_condition if base is not None else None),
        base_address=at(parsed.base_address, step, index),
        address_blocks=blocks,
        interrupts=sorted([interrupt(i) for i in parsed.interrupts], key=lambda i: i.value),
        registers_clusters=[],
        parsed=parsed,
    )


def address_block(b: SVDAddressBlock):
    return AddressBlock(
        offset=b.offset,
        size=b.size,
        usage=b.usage,
        protection=ProtectionStringType.ANY if b.protection is None else b.protection,
        parsed=b,
    )


def interrupt(i: SVDInterrupt):
    return Interrupt(name=i.name, description=i.description, value=i.value, parsed=i)


def cluster(self, index: int, name: str, parsed: SVDCluster, base: None | ICluster):
    step = own(parsed.dim_increment, base.dim_increment if base is not None else None)
    return ICluster(
        dim=own(parsed.dim, base.dim if base is not None else None),
        dim_index=own(parsed.dim_index, base.dim_index if base is not None else None),
        dim_increment=step,
        size=own(parsed.size, base.size if base is not None else None),
        access=own(parsed.access, base.access if base is not None else None),
        protection=own(parsed.protection, base.protection if base is not None else None),
        reset_value=own(parsed.reset_value, base.reset_value if base is not None else None),
        reset_mask=own(parsed.reset_mask, base.reset_mask if base is not None else None),
        name=name,
        description=own(parsed.description, base.description if base is not None else None),
        alternate_cluster=own(parsed.alternate_cluster, base.alternate_cluster if base is not None else None),
        header_struct_name=own(parsed.header_struct_name, base.header_struct_name if base is not None else None),
        address_offset=at(parsed.address_offset, step, index),
        registers_clusters=[],
        parsed=parsed,
    )


def register(self, index: int, name: str, display_name: None | str, parsed: SVDRegister, base: None | IRegister):
    step = own(parsed.dim_increment, base.dim_increment if base is not None else None)
    if display_name is not None and "[%s]" in display_name:
        display_name = display_name.replace("[%s]", str(index))
    return IRegister(
        dim=own(parsed.dim, base.dim if base is not None else None),
        dim_index=own(parsed.dim_index, base.dim_index if base is not None else None),
        dim_increment=step,
        size=own(parsed.size, base.size if base is not None else None),
        access=own(parsed.access, base.access if base is not None else None),
        protection=own(parsed.protection, base.protection if base is not None else None),
        reset_value=own(parsed.reset_value, base.reset_value if base is not None else None),
        reset_mask=own(parsed.reset_mask, base.reset_mask if base is not None else None),
        name=name,
        display_name=display_name,
        description=own(parsed.description, base.description if base is not None else None),
        alternate_group=own(parsed.alternate_group, base.alternate_group if base is not None else None),
        alternate_register=own(parsed.alternate_register, base.alternate_register if base is not None else None),
        address_offset=at(parsed.address_offset, step, index),
        data_type=own(parsed.data_type, base.data_type if base is not None else None),
        modified_write_values=modified_write_values(parsed, base),
        write_constraint=constraint(parsed.write_constraint, base),
        read_action=own(parsed.read_action, base.read_action if base is not None else None),
        fields=[],
        parsed=parsed,
    )


def modified_write_values(parsed, base):
    if parsed.modified_write_values is not None:
        return parsed.modified_write_values
    if base is not None:
        return base.modified_write_values
    return ModifiedWriteValuesType.MODIFY


def constraint(w: None | SVDWriteConstraint, base):
    if w is not None:
        return WriteConstraint(
            write_as_read=w.write_as_read, use_enumerated_values=w.use_enumerated_values, range_=w.range_, parsed=w
        )
    if base is not None:
        return base.write_constraint
    return None


def field(self, index: int, name: str, parsed: SVDField, base: None | IField):
    step = own(parsed.dim_increment, base.dim_increment if base is not None else None)
    msb, lsb = bits(parsed, base)
    return IField(
        dim=own(parsed.dim, base.dim if base is not None else None),
        dim_index=own(parsed.dim_index, base.dim_index if base is not None else None),
        dim_increment=step,
        access=own(parsed.access, base.access if base is not None else None),
        name=name,
        description=own(parsed.description, base.description if base is not None else None),
        lsb=at(lsb, step, index),
        msb=at(msb, step, index),
        modified_write_values=modified_write_values(parsed, base),
        write_constraint=constraint(parsed.write_constraint, base),
        read_action=own(parsed.read_action, base.read_action if base is not None else None),
        enumerated_value_containers=[],
        parsed=parsed,
    )


def bits(parsed: SVDField, base: None | IField):
    """(msb, lsb): an explicit range wins over lsb/msb, which win over offset and width; the missing half of a pair
    comes from the base"""
    result = None
    if parsed.bit_range is not None:
        m = re.match(r"\[(\d+):(\d+)\]", parsed.bit_range)
        if m is None:
            raise ProcessException("bit range")
        high = int(m.group(1))
        low = int(m.group(2))
        if high < low:
            warn()
            return low, high
        return high, low
    if parsed.lsb is not None or parsed.msb is not None:
        lsb = own(parsed.lsb, base.lsb if base is not None else None)
        msb = own(parsed.msb, base.msb if base is not None else None)
        if lsb is not None and msb is not None:
            result = (msb, lsb)
    if result is None and (parsed.bit_offset is not None or parsed.bit_width is not None):
        offset = own(parsed.bit_offset, base.lsb if base is not None else None)
        width = own(parsed.bit_width, base.msb - base.lsb + 1 if base is not None else None)
        if offset is not None and width is not None:
            result = (offset + width - 1, offset)
    if result is None:
        raise ProcessException("no position")
    if result[0] < result[1]:
        warn()
    return result


def dimension(self, parsed_element: SVDPeripheral | SVDCluster | SVDRegister | SVDField,
              base_element: None | IPeripheral | ICluster | IRegister | IField):
    """(is an array or list, names, display names)"""
    dim = own(parsed_element.dim, base_element.dim if base_element is not None else None)
    dim_index = own(parsed_element.dim_index, base_element.dim_index if base_element is not None else None)
    display_name = None
    if isinstance(parsed_element, SVDRegister):
        display_name = parsed_element.display_name
        if display_name is None and isinstance(base_element, IRegister):
            display_name = base_element.display_name
    if dim is None and "%s" in parsed_element.name:
        raise ProcessException("placeholder without dim")
    if dim is not None and "%s" not in parsed_element.name:
        warn()
        dim = None
    if display_name is not None and dim is None and "%s" in display_name:
        raise ProcessException("placeholder without dim")
    names, display_names = expand(
        parsed_element.name, display_name, dim, dim_index, isinstance(parsed_element, SVDField), isinstance(parsed_element, SVDPeripheral)
    )
    return dim is not None, names, display_names


def dimension_step(self, parsed_element: SVDPeripheral | SVDCluster | SVDRegister | SVDField,
              base_element: None | IPeripheral | ICluster | IRegister | IField):
    """(is an array or list, names, display names)"""
    dim = own(parsed_element.dim, base_element.dim if base_element is not None else None)
    dim_index = own(parsed_element.dim_index, base_element.dim_index if base_element is not None else None)
    display_name = None
    if isinstance(parsed_element, SVDRegister):
        display_name = parsed_element.display_name
        if display_name is None and isinstance(base_element, IRegister):
            display_name = base_element.display_name
    if dim is None and "%s" in parsed_element.name:
        raise ProcessException("placeholder without dim")
    if dim is not None and "%s" not in parsed_element.name:
        warn()
        dim = None
    if display_name is not None and dim is None and "%s" in display_name:
        raise ProcessException("placeholder without dim")
    names, display_names = _ProcessDimension().process_dim(parsed_element.name, display_name, dim, dim_index, type(parsed_element))
    return dim is not None, names, display_names


def expand(name: str, display_name: None | str, dim: None | int, dim_index: None | str, is_field, is_peripheral):
    if dim is None:
        return [name], [display_name]
    if dim < 1:
        raise ProcessException("dim")
    if "[%s]" in name:
        if is_field:
            raise ProcessException("array of fields")
        if display_name is not None and "[%s]" not in display_name and "%s" in display_name:
            raise ProcessException("array with list display name")
        names = [name.replace("[%s]", str(i)) for i in range(dim)]
        display = [None if display_name is None else display_name.replace("[%s]", str(i)) for i in range(dim)]
        return names, display
    if "%s" in name:
        if is_peripheral:
            raise ProcessException("list of peripherals")
        if display_name is not None and "[%s]" in display_name:
            raise ProcessException("list with array display name")
        ix = indices(dim, dim_index)
        return [name.replace("%s", i) for i in ix], [None if display_name is None else display_name.replace("%s", i) for i in ix]
    raise ProcessException("no placeholder")


def indices(dim: int, dim_index: None | str):
    if dim_index is None:
        ix = [str(i) for i in range(dim)]
    elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
        a, b = dim_index.split("-")
        if int(a) > int(b):
            raise ProcessException("range")
        ix = [str(i) for i in range(int(a), int(b) + 1)]
    elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
        a, b = dim_index.split("-")
        if ord(a) >= ord(b):
            raise ProcessException("range")
        ix = [chr(i) for i in range(ord(a), ord(b) + 1)]
    elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
        ix = re.sub(r"\s+", "", dim_index).split(",")
    elif re.match(r"[_0-9a-zA-Z]+", dim_index):
        ix = [dim_index]
    else:
        raise ProcessException("index")
    if len(ix) != dim:
        raise ProcessException("count")
    return ix


def expand_method(self, name: str, display_name: None | str, dim: None | int, dim_index: None | str, element_type: type):
    return expand(name, display_name, dim, dim_index, element_type is SVDField, element_type is SVDPeripheral)
