"""Reference semantics of the register map (interpreted by the analysis, never executed)."""
from svdsuite.map import PeripheralRegisterMap
from svdsuite.model.map import MapPeripheral, MapRegister
from svdsuite.model.process import Cluster, Device, Peripheral, Register
from svdsuite.parse import Parser
from svdsuite.process import Process


def code(processed_device: Device):
    return PeripheralRegisterMap(processed_device).peripheral_map


def entry(register: Register, address: int):
    return MapRegister(size=register.size, access=register.access, protection=register.protection, reset_value=register.reset_value,
                       reset_mask=register.reset_mask, name=register.name, display_name=register.display_name,
                       description=register.description, address=address, fields=register.fields, processed=register)


def flat(container_address: int, cluster: Cluster) -> list[MapRegister]:
    address = cluster.address_offset + container_address
    out: list[MapRegister] = []
    for x in cluster.registers_clusters:
        if isinstance(x, Register):
            out.append(entry(x, address + x.address_offset))
        else:
            out += flat(address, x)
    return out


def allocated(p: Peripheral):
    if not p.address_blocks:
        raise ValueError("no address blocks")
    return (p.base_address + min([b.offset for b in p.address_blocks]),
            p.base_address + max([b.offset + b.size for b in p.address_blocks]) - 1)


def one(p: Peripheral):
    out: list[MapRegister] = []
    for x in p.registers_clusters:
        if isinstance(x, Register):
            out.append(entry(x, p.base_address + x.address_offset))
        else:
            out += flat(p.base_address, x)
    return MapPeripheral(name=p.name, description=p.description, address=p.base_address, allocated_range=allocated(p),
                         registers=out, processed=p)


def want(processed_device: Device):
    return sorted([one(p) for p in processed_device.peripherals], key=lambda m: m.address)


def code_file(path: str, log: None | str):
    return PeripheralRegisterMap.from_svd_file(path, log).peripheral_map


def want_file(path: str, log: None | str):
    return PeripheralRegisterMap(Process(Parser.from_svd_file(path).get_parsed_device(), log).get_processed_device()).peripheral_map


def code_content(content: bytes, log: None | str):
    return PeripheralRegisterMap.from_xml_content(content, log).peripheral_map


def want_content(content: bytes, log: None | str):
    return PeripheralRegisterMap(Process(Parser.from_xml_content(content).get_parsed_device(), log).get_processed_device()).peripheral_map


def code_text(xml_str: str, log: None | str):
    return PeripheralRegisterMap.from_xml_str(xml_str, log).peripheral_map


def want_text(xml_str: str, log: None | str):
    return PeripheralRegisterMap(Process(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), log).get_processed_device()).peripheral_map
