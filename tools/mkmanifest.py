#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import RUNS, LEVEL, TECH, NOTE, NOT_CLAIMED
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
pairs = sorted({(r["config"], r["bin"]) for rs in RUNS.values() for r in rs})
cfg = {}
for c, b in pairs: cfg.setdefault(c, []).append(b)
setup = " && ".join("python3 tools/build.py %s %s > /dev/null" % (c, " ".join(bs)) for c, bs in sorted(cfg.items()))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in RUNS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(i, "not claimed yet: its generated-input check is still being built")})
m = {"version": 1, "setup_cmd": setup, "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
