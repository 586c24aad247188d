#!/usr/bin/env python3
"""Rewrites MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl", encoding="utf-8") if l.strip()]
checks = [{"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i]["technique"], "level": PROPS[i]["level"],
           "level_note": PROPS[i]["level_note"]} for i in ids if i in PROPS]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is observed at its C API, its C++ class interfaces and (for the SQL functions) a stand-in for the PostgreSQL server. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
