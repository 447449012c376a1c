#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["987eece", "148437e", "7282112"]
MC = "model_checking"; EX = "exploration"; FA = "fault_enumeration"
ENUM = "bounded-exhaustive enumeration of executions of the real code against a reference model"
BFS = "explicit-state search of a reference model; every path replayed on the real code"
T = {}
def c(id, level, technique, note):
    T[id] = (level, technique, note)

exec(open(os.path.join(here, "tools", "checks.py")).read())

NA = {
 "D16": "the code under test has no expiry to explore: the periodic maintenance (DhtStorage::tick) is unimplemented at this commit, so no reachable execution exercises it",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
def sha(s):
    return subprocess.run(["git", "-C", "/repo", "rev-parse", s], capture_output=True, text=True).stdout.strip()
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(vp_mc)", "enable": "RUSTFLAGS=\"--cfg vp_mc\" (set by check.sh and setup.sh)", "source_commits": [sha(h) for h in HOOKS]},
 "checks": [{
   "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": T[i][1], "level": T[i][0], "level_note": T[i][2]} for i in ids if i in T],
 "not_applicable": [{"property": i, "reason": NA.get(i, "check still being built")} for i in ids if i not in T],
 "notes": "see DESIGN.md; known_findings.txt lists repaired and recorded defects",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks;", [n["property"] for n in m["not_applicable"]], "not claimed")
