#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS, NOT_CLAIMED

checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --tier thorough",
                       "technique": PROPS[p]["technique"], "level": "model_checking", "level_note": PROPS[p]["note"]})
    else:
        na.append({"property": p, "reason": NOT_CLAIMED[p]})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "osrec", "enable": "no hooks in /repo: the checks that observe file operations build the harness with "
               "-tags osrec and an overlay of package os (bin/mkoverlay.py)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; traces of the real code are validated against spec/TraceVibeCol.tla."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
