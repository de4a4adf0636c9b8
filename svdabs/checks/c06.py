"""Gated value-flow comparison of the token readers with the reference grammar (decimal, 0x, 0b, #, true/false/1/0), at
the helper functions over an arbitrary string and at the public entry point over an arbitrary tree."""
LEVEL = "other"
ASSUMPTIONS = ["int(text, base), str.replace and str.lower behave as documented"]


def check(chk):
    if chk.func("parse:_to_int"):
        chk.equiv("number-token", "parse:_to_int", "specs.tokens.number_or_none", observe=("value", "raises"), exc_only=True)
    if chk.func("parse:_to_none_or_bool"):
        chk.equiv("boolean-token", "parse:_to_none_or_bool", "specs.tokens.boolean_or_none", observe=("value", "raises"), exc_only=True)
    for k in ("number", "optional_number", "boolean"):
        chk.equiv("parsed-token", f"specs.tokens.code_{k}", f"specs.tokens.want_{k}", observe=("value",))
