#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C27": "the Python layer (pydcgp) needs pybind11, AuDi and SymEngine, none of which is present or can be installed "
           "offline: no module can be built, so no trace of the bindings can be recorded; the C++ behaviour they forward to is "
           "covered by the other properties, and the pure Python parts of the package by C29 and C30",
}
GEN = ("TLA+ specification model checked with TLC; traces recorded from the real code, driven by histories the "
       "specification or a seeded generator produces, are checked against the specification with TLC")
hooks = {"guard": "DCGP_VERIF", "enable": "no hooks are needed: the drivers observe through the public interface", "source_commits": []}
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'tools'); import vp; vp.build_classes('build/classes')\"",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC; see DESIGN.md. VP_REPO=<dir> runs a check against a scratch copy instead of /repo."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        level, fn = checks.CHECKS[i]
        note = checks.NOTES.get(i, "")
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": checks.TECH.get(i, GEN), "level": level,
                            "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
