#!/usr/bin/env python3
"""Writes MANIFEST.json from the check table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
NOTES = getattr(checks, "NOTES", {})
out = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none", "enable": "no hooks: the checks use only the library's public interface", "source_commits": []},
       "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
            "technique": "TLA+ specification checked with TLC; TLC-generated scenarios replayed on the library, recorded traces validated by TLC against the specification",
            "level": "model_checking",
            "level_note": NOTES.get(i, "The design model is exhaustive within small constants; the code is covered on the generated scenarios only, each step of each trace being checked against the specification in exact arithmetic. Trusts TLC, the ExactReal evaluation class and the replay driver.")})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
