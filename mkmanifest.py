#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with lib/driver.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import driver
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
E1T = "TLA+ spec of the mapping machine (TLC): behaviours generated from it are run on the crate, the recorded traces are checked against it"
TECH = {
    "e1check": E1T,
    "e2check": "TLA+ spec of the derive pipeline (TLC): declarations generated from it with the predicted outcome are replayed into rustc with the real macros",
    "e3check": "TLA+ spec of availability and output types (TLC): declarations and queries generated from it are answered by the compiler and compared",
    "e4check": "TLA+ spec of name resolution around derived code (TLC): namings generated from it are compiled and run with the real macros",
    "e5check": "TLA+ spec of the feature lattice (TLC): every combination is built and probed, and compared with it",
    "e7check": "TLA+ spec of lint levels and occasions (TLC): declarations generated from it with the predicted reports are compiled with and without the real macros",
    "e8check": "TLA+ spec of type inference at calls (TLC): chains of calls generated from it are compiled, and accepted or refused as predicted",
    "e6check": "TLA+ spec of the derive pipeline (TLC): declarations generated from it are expanded repeatedly and compared",
}
LEVEL = {k: "model_checking" for k in TECH}
NOTE = json.load(open(os.path.join(here, "lib", "notes.json")))
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks were needed: the checks use the public interface and the compiler", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in driver.ENGINE:
        e = driver.ENGINE[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH[e], "level": LEVEL[e], "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is being built"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
