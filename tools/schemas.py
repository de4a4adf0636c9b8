"""Record the canonical components of the published schemas (run once, on the pinned tree)."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from svdabs.xsd import components  # noqa: E402

D = "/repo/src/svdsuite/schema"
out = {f[:-4]: components(open(os.path.join(D, f), "rb").read()) for f in sorted(os.listdir(D)) if f.endswith(".xsd")}
json.dump(out, open(os.path.join(os.path.dirname(__file__), "../svdabs/schemas.json"), "w"), indent=0, sort_keys=True)
