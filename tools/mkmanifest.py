#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in props/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "run": "exhaustive exploration of a bounded space of programs and inputs on the real code, each run compared with a prioritised transition-system model",
    "accept": "exhaustive enumeration of a bounded program space on the real macros, each compiler verdict compared with a reference grammar/binder model",
    "lint": "exhaustive enumeration of a bounded space of correct programs and configurations on the real macros, each one's diagnostics compared with the specification (none)",
    "hist": "exhaustive exploration of call histories, re-entrant nestings and thread interleavings of the real code under a controlled scheduler",
}
KIND = {"C08": "accept", "C09": "accept", "C17": "accept", "C18": "accept", "C16": "hist", "C21": "accept", "C25": "lint"}
NOTE = {
    "run": "Holds for every program and input of the stated bounds (counted in the evidence); nothing is said beyond them. Trusts the reference model (rt/src/model.rs, written from the documentation), rustc, and the regex crate's table of Unicode digits.",
    "accept": "Holds for every program of the stated bounds; nothing is said beyond them. Trusts the reference grammar in the generator and that rustc attributes errors to the right line.",
    "lint": "Holds for every program of the stated bounds with the compiler at hand; nothing is said beyond them. Trusts that rustc attributes a warning to the right line; that the lints are on is tested in each compilation.",
    "hist": "Holds for every history, nesting and interleaving of the stated bounds; preemption happens at call boundaries, at user code inside calls and at every instruction of the program on atomics, locks or static data (in histories of two calls), not at plain heap accesses.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        k = KIND.get(i, "run")
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "model checking: " + TECH[k],
            "level": "model_checking",
            "level_note": NOTE[k],
        })
    else:
        na.append({"property": i, "reason": "the check is still being built"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public macros and traits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
