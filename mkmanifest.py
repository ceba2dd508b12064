#!/usr/bin/env python3
"""writes MANIFEST.json from props.py; the level says what the last complete run on the unchanged tree established"""
import json
from props import PROPS
NA = {"C23": "the static evaluator exists only with feature static_lookup, whose tables are generated by the build script from a file it downloads (phf map of an external crate); without network neither the text to put under contract nor a build of it exists in this sandbox"}
TECH = "contract-based deductive verification (Verus) of the functions of /repo extracted mechanically on every run"
checks = []
for pid, p in PROPS.items():
    lvl = "proof" if p.get("proved") else "exploration"
    note = p.get("note", "")
    if lvl == "proof":
        n = "Every obligation of the functions under contract and of the lemmas that derive the property is discharged for all inputs, on the source as it is on this run. " + note + " Trusted: Verus, Z3, rustc, the extraction (its rewrites are in the evidence), the assumed contracts on std and dependencies listed in the evidence; the replay search against the real crate is an additional bounded check of those."
    else:
        n = "Part of the functions this rests on is under contract and discharged; the rest is decided by a bounded stand-in against an independent oracle, labelled bounded. " + note
    c = {"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} thorough", "evidence_file": f"evidence/{pid}.json", "technique": TECH, "level": lvl, "level_note": " ".join(n.split())}
    checks.append(c)
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks: /repo carries two fix commits and no instrumentation."}, open("MANIFEST.json", "w"), indent=1)
