#!/usr/bin/env python3
"""Writes ../MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=p["technique"], level=p.get("level", "exploration"), level_note=p["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 -c \"import check\" && mkdir -p evidence replays build", checks=checks,
    not_applicable=na,
    notes="No hooks: harnesses in harness/ are built from /repo's sources by check.py. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
