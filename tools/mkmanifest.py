#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties with a check module."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = ("TLA+ specification of the checker's state and transitions (spec/*.tla), executed and checked with TLC; "
        "behaviours of the specification replayed into the real binaries (release and debug) and compared")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/tools/props/%s.py" % i.lower()):
        src = open(V + "/tools/props/%s.py" % i.lower()).read()
        note = ""
        if "LEVEL_NOTE" in src:
            ns = {}
            exec([l for l in src.split("\n") if l.startswith("LEVEL_NOTE")][0], ns)
            note = ns["LEVEL_NOTE"]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
                           thorough_cmd="python3 check.py %s thorough" % i,
                           technique=TECH.replace("release and debug", "debug, and release with memory and undefined behaviour checks") if i == "C23" else TECH, level="model_checking",
                           level_note=note or "bounded: conclusions hold for the behaviours of the specification that were generated and replayed; see DESIGN.md",
                           evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; known findings and repaired defects in known-findings; see DESIGN.md"),
          open(V + "/MANIFEST.json", "w"), indent=1)
