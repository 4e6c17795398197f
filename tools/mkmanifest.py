#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and from what tools/props.py implements."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py --property %s --tier quick" % i,
                           thorough_cmd="python3 check.py --property %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=p["technique"],
                           level=p.get("level", "exploration"), level_note=p["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the machinery watches the public interface only. Known and fixed findings: known-findings.txt.")
open(V + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
