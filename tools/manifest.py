#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use public extension points (Directory, Analyzer, IndexWriter::testPoint, infoStream), "
              "interposed system calls and sanitizer builds of the unchanged sources."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
