#!/usr/bin/env python3
"""Regenerates svdabs/signatures.json: the parameters of the functions the comparisons cut at, as the references call them."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from svdabs.lib import Check, params
c = Check("X", "/repo", "quick")
json.dump({q: params(f) for q, f in sorted(c.prog.funcs.items()) if q.startswith("svdsuite.")}, open(f"{V}/svdabs/signatures.json", "w"), indent=0)
