#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/claims.py and tools/jobs.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import claims, jobs
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in jobs.Q:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "bounded symbolic execution of the compiled crate (LLVM IR) with SMT (z3)",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within these bounds: " + claims.CLAIMS[i]["bounds"]
        + ". Trusts the engine (/verif/engine, validated by replaying sampled paths natively bit for bit), rustc and z3; counterexamples are replayed natively before they are reported. Job lists: tools/jobs.py.",
    })
na = [
    {"property": "C23", "reason": "rendering goes through plotters, font rasterisation (ttf-parser, FreeType) and bitmap encoding into files: hundreds of thousands of floating-point and pixel operations behind I/O and FFI that symbolic execution cannot encode within reach, and there is no crisp oracle for 'shows the data'; the recorded data itself is decided under C21"},
    {"property": "C24", "reason": "a statistical statement about hundreds of generations of floating-point arithmetic (matrix decompositions, transcendental functions) over random draws; no SMT query within reach expresses or decides it, and bounding it to a few steps would no longer be the property"},
]
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crate (/verif/harness) uses the public API only; environment stubs live in build-time copies of statrs and rayon-core and in the engine. See DESIGN.md."}
assert sorted([c["property"] for c in checks] + [x["property"] for x in na]) == sorted(ids)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
