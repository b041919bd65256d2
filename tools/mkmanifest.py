#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and the notes here."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES, G
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i + " thorough",
                       "technique": "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
                       + ("; cases that TLC enumerates exhaustively from models replayed into the real code"
                          if any(isinstance(x, G) for x in PLAN[i]) else "")
                       + ("; schedules enumerated by a controlled scheduler" if any(getattr(x, "kind", "") == "sched" for x in PLAN[i]) else ""),
                       "level": "model_checking", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, "The check is still being built.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "hooks": {"guard": "none", "enable": "The checks use the exported interface only; /repo has no hooks.", "source_commits": []},
     "not_applicable": na,
     "notes": "Language: TLA+, checked with TLC. See DESIGN.md. Repairs of /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
