#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per harness file."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Bounded: within the bounds of the harness entries (listed in the evidence file) every path of the real code is executed symbolically and every "
  "assertion is decided by z3 for all values of the symbolic inputs; nothing is claimed outside them. Trusted: the Go SSA builder, the engine's "
  "interpretation of it, the models of os/fmt/errors/sroar (sampled paths and every counterexample are replayed against the real packages), and z3.")
TECH = "symbolic execution of the Go SSA of the real code, assertions decided by z3 (QF_BV)"
extra = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/h/%s.go" % i.lower())):
        c = dict(property=i, quick_cmd="sh run.sh %s quick" % i, thorough_cmd="sh run.sh %s thorough" % i,
                 technique=TECH, level="model_checking", level_note=NOTE + extra.get(i, ""))
        checks.append(c)
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: harnesses are overlaid on the package loader. known-findings.json lists recorded and repaired defects."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
