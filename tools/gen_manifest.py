#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from monitors.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import monitors
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = monitors.PROPS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": monitors.NOT_APPLICABLE.get(p["id"], "check not built yet")})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 check.py run " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + p["id"],
                   "technique": c.get("technique", "runtime monitoring: model-based oracle over generated histories, ASan+UBSan"),
                   "level": c["level"],
                   "level_note": c.get("note", "No violation in the executions generated for this seed; nothing is claimed beyond them. Trusts the reference model in the monitor, the compiler and its sanitizers.")})
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "SC_VERIF_HOOK", "enable": "no hook is needed: the monitors compile /repo's sources unmodified and observe the public API, wrapped libc calls (--wrap) and sanitizers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Monitors live in harness/, shared support in lib/, build and run tables in monitors.py, driver in check.py. Genuine defects found are in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
