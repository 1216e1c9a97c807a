#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(V, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    b = i.lower()
    if os.path.exists(os.path.join(V, "mc", "src", "bin", b + ".rs")) and i in T:
        t = T[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % b, "thorough_cmd": "./run.sh %s --tier thorough" % b,
                       "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": T.get(i, {}).get("na", "the check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of the crate, built from /repo as a path dependency", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Model checking on the real generic code: finite families of inputs, histories, schedules, fault points and environment answers are enumerated completely and executed; see DESIGN.md. known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
