#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl (run by hand before committing)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
TECH = "property-based testing: generated inputs/histories judged by an explicit oracle, with shrinking and replay"
for i in ids:
    if i not in checks.C and i not in NA:
        NA[i] = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "hooks": {"guard": "STATIC_MAPPING_VERIF", "enable": "not needed: no guarded hook exists; the checks compile /repo's sources directly", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Every check compiles the sources of /repo's working tree into its own program under /verif/build (git-ignored). Replay: python3 /verif/check.py <id> --replay <file>."}
for i in ids:
    if i not in checks.C:
        continue
    spec = checks.C[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": spec.get("technique") or TECH,
        "level": "exploration", "level_note": spec.get("note") or "randomised exploration with a fixed seed; absence of a violation is evidence over the generated cases, not a proof"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [i for i in ids if i not in checks.C and i not in NA])
