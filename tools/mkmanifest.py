#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and of what is claimed."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import CLAIMS, NOTYET
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
           "evidence_file": "evidence/%s.json" % p, "technique": CLAIMS[p][1], "level": CLAIMS[p][2], "level_note": CLAIMS[p][3]}
          for p in props if p in CLAIMS]
na = [{"property": p, "reason": NOTYET[p]} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC; conformance by replaying TLC behaviours into the real code and by judging recorded traces with TLC. No hooks in /repo: the driver is compiled into /repo's module through 'go build -overlay', and file operations are instrumented in an overlay of the standard library's syscall package."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
