#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and spec/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from importlib.machinery import SourceFileLoader
D = SourceFileLoader("props_data", os.path.join(V, "tools", "props_data.py")).load_module()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in D.PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
props, checks, na = {}, [], []
for p in D.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    props[p["id"]] = {k: p[k] for k in ("units", "rules", "obligations", "modules", "explanation", "assumptions", "level") if k in p}
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["level_note"]})
json.dump(props, open(os.path.join(V, "spec", "props.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "make -s -C /verif/src", "checks": checks, "not_applicable": na, "notes": D.NOTES}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
