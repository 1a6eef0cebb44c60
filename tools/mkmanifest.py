#!/usr/bin/env python3
"""write /verif/MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plist = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in plist:
    i = p["id"]
    if i in props.PROPS:
        s = props.PROPS[i]
        c = {"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": s.get("technique", props.TECH), "level": s["level"],
             "level_note": s.get("note", props.NOTE)}
        if s["level"] == "proof":
            c["theorems"] = [f"{u}::{f}" for u, fns in s["units"].items() for f in (props.unit_fns(u, f"{V}/units/{u}.vrs") if fns == "*" else fns)] + s.get("lemmas", [])
        checks.append(c)
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE[i]})
for i in props.PROPS:
    assert any(p["id"] == i for p in plist), i
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Contracts live in units/*.vrs; tools/extract.py splices them into the functions of /repo's working tree on every run and Verus discharges the obligations function by function. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
