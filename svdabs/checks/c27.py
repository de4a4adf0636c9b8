"""Gated value-flow comparison of the validator's entry points with the reference verdict, once per published schema version
(the schema files are looked up in the tree), and structural comparison of each schema with the published one."""
from ..core import C

LEVEL = "other"
ASSUMPTIONS = ["lxml's XMLSchema decides validity", "packaging orders version numbers numerically"]

VERSIONS = ["1.0", "1.1", "1.2", *(f"1.3.{n}" for n in range(1, 12))]
READERS = ["util.xml_parse:safe_parse", "util.xml_parse:safe_fromstring"]


def check(chk):
    if not all(chk.func(f) for f in READERS):
        return chk.missing("verdict", ", ".join(READERS))
    for v in VERSIONS:
        for k in ("file", "content", "text"):
            chk.equiv(f"verdict-{v}", f"specs.loading.code_{k}", f"specs.loading.want_{k}", opaque=READERS,
                      args={"version": lambda I, v=v: C(v)})
    chk.equiv("latest", "specs.loading.code_latest", "specs.loading.latest")
    chk.equiv("defaults", "specs.loading.code_defaults", "specs.loading.want_defaults", opaque=READERS)
