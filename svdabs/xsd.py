"""A canonical form of the top-level components of an XML schema: comments, annotations, attribute order, prefixes of the
schema namespace, default attribute values and the order of alternatives do not matter."""
import hashlib
import io
import json
import os
import re
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
DEFAULTS = {"minOccurs": "1", "maxOccurs": "1", "use": "optional"}
UNORDERED = {"all", "choice", "restriction", "schema"}


def components(data: bytes):
    """{component: digest}; the component "schema" stands for the attributes of the schema itself"""
    prefixes, root = {}, None
    for ev, x in ET.iterparse(io.BytesIO(data), events=("start-ns", "start")):
        if ev == "start-ns":
            prefixes[x[0]] = x[1]
        elif root is None:
            root = x
    own = [p for p, u in prefixes.items() if "{" + u + "}" == XS]

    def value(v):
        p, _, rest = v.partition(":")
        return "xs:" + rest if rest and p in own else " ".join(v.split()) if not re.search(r"[\[\\]", v) else v

    def canon(e):
        tag = e.tag.replace(XS, "")
        attrs = tuple(sorted((k, value(v)) for k, v in e.attrib.items() if DEFAULTS.get(k) != v and k != "id"))
        kids = [canon(c) for c in e if isinstance(c.tag, str) and c.tag != XS + "annotation"]
        return (tag, attrs, tuple(sorted(kids) if tag in UNORDERED else kids))

    tree = canon(root)
    out = {"schema": tuple(a for a in tree[1] if a[0] not in ("version",) and not a[0].startswith("{"))}
    for c in tree[2]:
        out[f"{c[0]} {dict(c[1]).get('name', dict(c[1]).get('schemaLocation', ''))}"] = c
    return {k: hashlib.sha256(repr(v).encode()).hexdigest()[:20] for k, v in out.items()}


try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "schemas.json")) as _f:
        PUBLISHED = json.load(_f)
except OSError:
    PUBLISHED = {}
