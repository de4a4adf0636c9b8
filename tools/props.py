"""Source of properties.jsonl and MANIFEST.json.  `python3 tools/props.py` regenerates both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over if isinstance(over, list) else [over], "text": text},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": ["src/svdsuite/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, (id, len(title))
    assert na or technique, id
    P.append((d, technique, note, na))


VF = "static analysis: interprocedural gated value-flow (value numbering with BDD guards) compared with a reference summary"
VFN = ("Decides, from the source only, that the summary of the code and the summary of the reference agree under every guard; "
       "what the analysis cannot interpret is listed as undecided in the evidence and never alarms. Trusts the analyser, the "
       "reference module under svdabs/specs and the documented behaviour of lxml and the standard library.")

exec(open(os.path.join(HERE, "tools", "list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'",
       "checks": [], "not_applicable": []}
for d, t, n, na in P:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": " ".join(na.split())})
    else:
        man["checks"].append({"property": d["id"], "quick_cmd": f"python3 run.py {d['id']}", "thorough_cmd": f"python3 run.py {d['id']}",
                              "technique": t, "level": "other", "level_note": n or VFN})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
