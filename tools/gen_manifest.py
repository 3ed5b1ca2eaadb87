#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n[0], "level": "model_checking", "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. No hooks in /repo: harnesses observe the real headers from outside (recording wrappers found first on the include path, "
              "virtual clock, public functors). fix: commits and findings are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
