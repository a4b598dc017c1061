#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables of tools/checks.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import CHECKS
from notes import TECH, NOTE, NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="mkdir -p build evidence replay && python3 -m py_compile run.py tools/checks.py",
         hooks=dict(guard="none", enable="no hooks are compiled into /repo: the monitors work on the public interface, on interposed allocation and OpenMP runtime calls and on compiler instrumentation", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                                technique=TECH[p], level="exploration", level_note=NOTE[p]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check under construction")))
m["notes"] = "Run from /verif. Every check compiles /repo/libgrpp itself with the instrumentation it needs into a scratch folder under build/ that it removes. See DESIGN.md."
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "without")
