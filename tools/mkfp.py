#!/usr/bin/env python3
"""record the shape of the functions the proofs were written for (run on the unchanged tree only)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, hints, inline, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(os.listdir(V + "/units")):
    if f.endswith(".vrs"):
        n = f[:-4]
        if not any(n in s["units"] for s in props.PROPS.values()):
            continue
        u = extract.Unit(n, V + "/units/" + f, "/repo")
        u.build()
        assert not u.lost, u.lost
        json.dump(u.fingerprints, open(f"{V}/units/{n}.fp.json", "w"), indent=0, sort_keys=True)
hints.record("/repo")
inline.record("/repo")
