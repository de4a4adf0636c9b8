"""Reference semantics of enumerated values: wildcards, duplicates, the default value."""
import itertools
import warnings

from svdsuite.model.parse import SVDEnumeratedValue, SVDEnumeratedValueContainer
from svdsuite.model.process import IEnumeratedValue, IEnumeratedValueContainer
from svdsuite.model.types import EnumUsageType
from svdsuite.process import ProcessException, ProcessWarning, _ProcessEnumeratedValueContainer


def warn():
    warnings.warn("process", ProcessWarning)


def container(self, c: SVDEnumeratedValueContainer, lsb: int, msb: int):
    return IEnumeratedValueContainer(
        name=c.name,
        header_enum_name=c.header_enum_name,
        usage=EnumUsageType.READ_WRITE if c.usage is None else c.usage,
        enumerated_values=values(self, c.enumerated_values, lsb, msb),
        parsed=c,
    )


def values(self, parsed_values: list[SVDEnumeratedValue], lsb: int, msb: int):
    names: set[str] = set()
    used: dict[int, str] = {}
    default = None
    out: list[IEnumeratedValue] = []
    for parsed in parsed_values:
        for v in expand(self, parsed):
            if v.name in names:
                warn()
                continue
            if v.value in used:
                warn()
                continue
            if v.is_default:
                if v.value is not None:
                    warn()
                    v.value = None
                if default:
                    raise ProcessException("two defaults")
                default = v
            names.add(v.name)
            if v.value is not None:
                used[v.value] = v.name
            out.append(v)
    if default:
        taken = {v.value for v in out if v.value is not None}
        free = set(range(int(2 ** (msb - lsb + 1)))) - taken
        out = out + [
            IEnumeratedValue(
                name=f"{default.name}_{n}", description=default.description, value=n, is_default=False, parsed=default.parsed
            )
            for n in free
        ]
        out = [v for v in out if not v.is_default]
    return sorted(out, key=lambda v: 0 if v.value is None else v.value)


def expand(self, parsed: SVDEnumeratedValue):
    """one value per concrete number the text stands for; a reserved one is left out"""
    if parsed.value:
        numbers = self._convert_enumerated_value(parsed.value)
    else:
        numbers = [None]
    out: list[IEnumeratedValue] = []
    for n in numbers:
        name = parsed.name
        if name.lower() == "reserved":
            warn()
            continue
        if n is not None and parsed.value:
            text = parsed.value.lower()
            digits = text[2:] if text.startswith("0x") else text
            if "x" in digits:
                name = f"{name}_{n}"
        out.append(
            IEnumeratedValue(
                name=name, description=parsed.description, value=n, is_default=parsed.is_default or False, parsed=parsed
            )
        )
    return out


def number(self, text: str):
    """the numbers a value text stands for"""
    text = text.lower().replace("#", "0b")
    try:
        if text.startswith("0b"):
            digits = text[2:]
            if "x" in digits:
                return [int(d, 2) for d in self._replace_x_combinations(digits)]
            return [int(digits, 2)]
        if text.startswith("0x"):
            return [int(text, 16)]
        if text.isdigit():
            return [int(text)]
    except ValueError as e:
        raise ProcessException("digits") from e
    raise ProcessException("format")


def combinations(self, digits: str):
    """every way to fill the x places, in counting order"""
    return [fill(digits, bits) for bits in itertools.product("01", repeat=digits.count("x"))]


def fill(digits: str, bits):
    out = digits
    for b in bits:
        out = out.replace("x", b, 1)
    return out


def code_one(name: str, a: SVDEnumeratedValue, lsb: int, msb: int):
    c = SVDEnumeratedValueContainer(name=name, header_enum_name=None, usage=None, enumerated_values=[a], derived_from=None, parent=None)
    return _ProcessEnumeratedValueContainer().create_enumerated_value_container(c, lsb, msb)


def want_one(name: str, a: SVDEnumeratedValue, lsb: int, msb: int):
    c = SVDEnumeratedValueContainer(name=name, header_enum_name=None, usage=None, enumerated_values=[a], derived_from=None, parent=None)
    return container(_ProcessEnumeratedValueContainer(), c, lsb, msb)


def code_two(name: str, a: SVDEnumeratedValue, b: SVDEnumeratedValue, lsb: int, msb: int):
    c = SVDEnumeratedValueContainer(name=name, header_enum_name=None, usage=None, enumerated_values=[a, b], derived_from=None, parent=None)
    return _ProcessEnumeratedValueContainer().create_enumerated_value_container(c, lsb, msb)


def want_two(name: str, a: SVDEnumeratedValue, b: SVDEnumeratedValue, lsb: int, msb: int):
    c = SVDEnumeratedValueContainer(name=name, header_enum_name=None, usage=None, enumerated_values=[a, b], derived_from=None, parent=None)
    return container(_ProcessEnumeratedValueContainer(), c, lsb, msb)
