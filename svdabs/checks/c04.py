"""Comparison of what each vocabulary makes of an arbitrary text with the CMSIS-SVD vocabulary, and of the text each token is
written as."""
LEVEL = "other"
ASSUMPTIONS = ["enum lookup by value and by name behaves as documented"]

KINDS = {"CPUNameType": "cpu", "EndianType": "endian", "ProtectionStringType": "protection", "SauAccessType": "sau", "AccessType": "access",
         "EnumeratedTokenType": "block", "DataTypeType": "data_type", "ModifiedWriteValuesType": "modified",
         "ReadActionType": "read_action", "EnumUsageType": "usage"}


def check(chk):
    for cls, ref in KINDS.items():
        chk.equiv("read", f"{cls}.from_str", f"specs.vocabulary.{ref}", expand_enums=True)
    chk.equiv("written", "specs.vocabulary.code_texts", "specs.vocabulary.want_texts")
