#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/vp/props.py and properties.jsonl"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vp import props
T = "TLA+ specification: TLC model checking of the design and trace validation of the real code against it"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    p = props.PROPS.get(d["id"])
    if p is None:
        na.append({"property": d["id"], "reason": props.NA.get(d["id"], "no check yet")})
        continue
    checks.append({"property": d["id"], "quick_cmd": "bin/check %s --tier quick" % d["id"],
                   "thorough_cmd": "bin/check %s --tier thorough" % d["id"],
                   "evidence_file": "evidence/%s.json" % d["id"],
                   "technique": p.get("technique", T), "level": p["level"],
                   "level_note": p.get("note", props.NOTE)})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library's objects are bound to the specification through its public API and object-level interposition (objcopy --redefine-sym). bin/replay FILE re-runs a reported trace."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
