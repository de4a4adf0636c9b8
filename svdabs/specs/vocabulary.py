"""Reference vocabulary of the CMSIS-SVD format (interpreted by the analysis, never executed)."""
import warnings

from svdsuite.util.parser_exception_warning import ParserWarning
from svdsuite.model.types import (
    AccessType, CPUNameType, DataTypeType, EndianType, EnumeratedTokenType, EnumUsageType, ModifiedWriteValuesType,
    ProtectionStringType, ReadActionType, SauAccessType,
)


def cpu(label: str):
    n = label.upper()
    if n == "CM0":
        return CPUNameType.CM0
    if n == "CM0PLUS":
        return CPUNameType.CM0PLUS
    if n == "CM0_PLUS" or label == "CM0+":
        return CPUNameType.CM0_PLUS
    if n == "CM1":
        return CPUNameType.CM1
    if n == "CM3":
        return CPUNameType.CM3
    if n == "CM4":
        return CPUNameType.CM4
    if n == "CM7":
        return CPUNameType.CM7
    if n == "CM23":
        return CPUNameType.CM23
    if n == "CM33":
        return CPUNameType.CM33
    if n == "CM35P":
        return CPUNameType.CM35P
    if n == "CM52":
        return CPUNameType.CM52
    if n == "CM55":
        return CPUNameType.CM55
    if n == "CM85":
        return CPUNameType.CM85
    if n == "SC000":
        return CPUNameType.SC000
    if n == "SC300":
        return CPUNameType.SC300
    if n == "ARMV8MML":
        return CPUNameType.ARMV8MML
    if n == "ARMV8MBL":
        return CPUNameType.ARMV8MBL
    if n == "ARMV81MML":
        return CPUNameType.ARMV81MML
    if n == "CA5":
        return CPUNameType.CA5
    if n == "CA7":
        return CPUNameType.CA7
    if n == "CA8":
        return CPUNameType.CA8
    if n == "CA9":
        return CPUNameType.CA9
    if n == "CA15":
        return CPUNameType.CA15
    if n == "CA17":
        return CPUNameType.CA17
    if n == "CA53":
        return CPUNameType.CA53
    if n == "CA57":
        return CPUNameType.CA57
    if n == "CA72":
        return CPUNameType.CA72
    if n == "SMC1":
        return CPUNameType.SMC1
    if n == "OTHER":
        return CPUNameType.OTHER
    raise NotImplementedError


def endian(label: str):
    if label == "little":
        return EndianType.LITTLE
    if label == "big":
        return EndianType.BIG
    if label == "selectable":
        return EndianType.SELECTABLE
    if label == "other":
        return EndianType.OTHER
    raise NotImplementedError


def protection(label: str):
    if label == "s":
        return ProtectionStringType.SECURE
    if label == "n":
        return ProtectionStringType.NON_SECURE
    if label == "p":
        return ProtectionStringType.PRIVILEGED
    if label == "any":
        return ProtectionStringType.ANY
    raise NotImplementedError


def sau(label: str):
    if label == "c":
        return SauAccessType.NON_SECURE_CALLABLE
    if label == "n":
        return SauAccessType.NON_SECURE
    raise NotImplementedError


def access(label: str):
    n = label.lower()
    if n == "read-only" or n == "read":
        return AccessType.READ_ONLY
    if n == "write-only" or n == "write":
        return AccessType.WRITE_ONLY
    if n == "read-write":
        return AccessType.READ_WRITE
    if n == "writeonce":
        return AccessType.WRITE_ONCE
    if n == "read-writeonce":
        return AccessType.READ_WRITE_ONCE
    warnings.warn("unknown access", ParserWarning)
    return None


def block(label: str):
    if label == "registers":
        return EnumeratedTokenType.REGISTERS
    if label == "buffer":
        return EnumeratedTokenType.BUFFER
    if label == "reserved":
        return EnumeratedTokenType.RESERVED
    raise NotImplementedError


def data_type(label: str):
    if label == "uint8_t":
        return DataTypeType.UINT8_T
    if label == "uint16_t":
        return DataTypeType.UINT16_T
    if label == "uint32_t":
        return DataTypeType.UINT32_T
    if label == "uint64_t":
        return DataTypeType.UINT64_T
    if label == "int8_t":
        return DataTypeType.INT8_T
    if label == "int16_t":
        return DataTypeType.INT16_T
    if label == "int32_t":
        return DataTypeType.INT32_T
    if label == "int64_t":
        return DataTypeType.INT64_T
    if label == "uint8_t *":
        return DataTypeType.UINT8_T_PTR
    if label == "uint16_t *":
        return DataTypeType.UINT16_T_PTR
    if label == "uint32_t *":
        return DataTypeType.UINT32_T_PTR
    if label == "uint64_t *":
        return DataTypeType.UINT64_T_PTR
    if label == "int8_t *":
        return DataTypeType.INT8_T_PTR
    if label == "int16_t *":
        return DataTypeType.INT16_T_PTR
    if label == "int32_t *":
        return DataTypeType.INT32_T_PTR
    if label == "int64_t *":
        return DataTypeType.INT64_T_PTR
    raise NotImplementedError


def modified(label: str):
    if label == "oneToClear":
        return ModifiedWriteValuesType.ONE_TO_CLEAR
    if label == "oneToSet":
        return ModifiedWriteValuesType.ONE_TO_SET
    if label == "oneToToggle":
        return ModifiedWriteValuesType.ONE_TO_TOGGLE
    if label == "zeroToClear":
        return ModifiedWriteValuesType.ZERO_TO_CLEAR
    if label == "zeroToSet":
        return ModifiedWriteValuesType.ZERO_TO_SET
    if label == "zeroToToggle":
        return ModifiedWriteValuesType.ZERO_TO_TOGGLE
    if label == "clear":
        return ModifiedWriteValuesType.CLEAR
    if label == "set":
        return ModifiedWriteValuesType.SET
    if label == "modify":
        return ModifiedWriteValuesType.MODIFY
    raise NotImplementedError


def read_action(label: str):
    if label == "clear":
        return ReadActionType.CLEAR
    if label == "set":
        return ReadActionType.SET
    if label == "modify":
        return ReadActionType.MODIFY
    if label == "modifyExternal":
        return ReadActionType.MODIFY_EXTERNAL
    raise NotImplementedError


def usage(label: str):
    if label == "read":
        return EnumUsageType.READ
    if label == "write":
        return EnumUsageType.WRITE
    if label == "read-write":
        return EnumUsageType.READ_WRITE
    raise NotImplementedError


def code_texts():
    return [[CPUNameType.CM0.value, CPUNameType.CM0PLUS.value, CPUNameType.CM0_PLUS.value, CPUNameType.CM1.value, CPUNameType.CM3.value,
             CPUNameType.CM4.value, CPUNameType.CM7.value, CPUNameType.CM23.value, CPUNameType.CM33.value, CPUNameType.CM35P.value,
             CPUNameType.CM52.value, CPUNameType.CM55.value, CPUNameType.CM85.value, CPUNameType.SC000.value, CPUNameType.SC300.value,
             CPUNameType.ARMV8MML.value, CPUNameType.ARMV8MBL.value, CPUNameType.ARMV81MML.value, CPUNameType.CA5.value,
             CPUNameType.CA7.value, CPUNameType.CA8.value, CPUNameType.CA9.value, CPUNameType.CA15.value, CPUNameType.CA17.value,
             CPUNameType.CA53.value, CPUNameType.CA57.value, CPUNameType.CA72.value, CPUNameType.SMC1.value, CPUNameType.OTHER.value],
            [EndianType.LITTLE.value, EndianType.BIG.value, EndianType.SELECTABLE.value, EndianType.OTHER.value],
            [ProtectionStringType.SECURE.value, ProtectionStringType.NON_SECURE.value, ProtectionStringType.PRIVILEGED.value,
             ProtectionStringType.ANY.value],
            [SauAccessType.NON_SECURE_CALLABLE.value, SauAccessType.NON_SECURE.value],
            [AccessType.READ_ONLY.value, AccessType.WRITE_ONLY.value, AccessType.READ_WRITE.value, AccessType.WRITE_ONCE.value,
             AccessType.READ_WRITE_ONCE.value],
            [EnumeratedTokenType.REGISTERS.value, EnumeratedTokenType.BUFFER.value, EnumeratedTokenType.RESERVED.value],
            [DataTypeType.UINT8_T.value, DataTypeType.UINT16_T.value, DataTypeType.UINT32_T.value, DataTypeType.UINT64_T.value,
             DataTypeType.INT8_T.value, DataTypeType.INT16_T.value, DataTypeType.INT32_T.value, DataTypeType.INT64_T.value,
             DataTypeType.UINT8_T_PTR.value, DataTypeType.UINT16_T_PTR.value, DataTypeType.UINT32_T_PTR.value,
             DataTypeType.UINT64_T_PTR.value, DataTypeType.INT8_T_PTR.value, DataTypeType.INT16_T_PTR.value,
             DataTypeType.INT32_T_PTR.value, DataTypeType.INT64_T_PTR.value],
            [ModifiedWriteValuesType.ONE_TO_CLEAR.value, ModifiedWriteValuesType.ONE_TO_SET.value,
             ModifiedWriteValuesType.ONE_TO_TOGGLE.value, ModifiedWriteValuesType.ZERO_TO_CLEAR.value,
             ModifiedWriteValuesType.ZERO_TO_SET.value, ModifiedWriteValuesType.ZERO_TO_TOGGLE.value,
             ModifiedWriteValuesType.CLEAR.value, ModifiedWriteValuesType.SET.value, ModifiedWriteValuesType.MODIFY.value],
            [ReadActionType.CLEAR.value, ReadActionType.SET.value, ReadActionType.MODIFY.value, ReadActionType.MODIFY_EXTERNAL.value],
            [EnumUsageType.READ.value, EnumUsageType.WRITE.value, EnumUsageType.READ_WRITE.value]]


def want_texts():
    return [["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "SC000", "SC300",
             "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53", "CA57", "CA72", "SMC1", "other"],
            ["little", "big", "selectable", "other"], ["s", "n", "p", "any"], ["c", "n"],
            ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"], ["registers", "buffer", "reserved"],
            ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *",
             "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"],
            ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"],
            ["clear", "set", "modify", "modifyExternal"], ["read", "write", "read-write"]]
