#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 mc/mc.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 mc/mc.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p.technique, "level": p.level, "level_note": p.note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 --version && g++ --version", 
     "hooks": {"guard": "CPPSORT_MC_HOOKS", "enable": "no hook was needed: the harnesses observe the library through its public interface only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harnesses from /verif/mc against /repo/include at run time and explores finite input/fault/schedule spaces completely; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
