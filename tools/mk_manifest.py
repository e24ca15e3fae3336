#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/pNN.py is claimed, the rest are not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit TLA+ specification checked with TLC; "
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTE:
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check still being built")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: every check drives and observes the public interface; harnesses compile /repo's sources with -Iinclude", "source_commits": []},
     "notes": "Checks take VERIF_SEED; VERIF_REPO may point the harness builds at a scratch copy for mutation experiments (default /repo)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", [x["property"] for x in na])
