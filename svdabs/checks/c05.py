"""Gated value-flow comparison of the two XML readers with the documented ladder: strict with the declared encoding, the five
common encodings strict, the five recovering, the first error; for an arbitrary outcome of every attempt."""
LEVEL = "other"
ASSUMPTIONS = ["lxml raises XMLSyntaxError for what it cannot parse, and nothing else"]


def check(chk):
    chk.equiv("file", "util.xml_parse:safe_parse", "specs.loading.document", exc_only=True)
    chk.equiv("content", "util.xml_parse:safe_fromstring", "specs.loading.root", exc_only=True)
