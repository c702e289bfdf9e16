#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in PROPS:
        s = PROPS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} quick", thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=s.get("technique", "TLA+ specification checked with TLC; its behaviours replayed into the real code (conformance)"),
            level=s["level"], level_note=s.get("note", "Exhaustive within the TLC bounds on the specification; every generated behaviour is executed on the real code and its observable output compared. Trusts the harness (virtual time, in-process HTTP) and unforgeability of the cryptography.")))
    else:
        na.append(dict(property=p["id"], reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness hooks the Go standard library through a build overlay (tools/overlay.py). Specifications in specs/, harness in harness/, driver in tools/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
