#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "chk_%s.py" % i)):
        tech, note = TECH.get(i, ("TLA+ specification; TLC validates recorded executions of the real code", "Exhaustive in a small scope plus random larger cases; bounded, not a proof."))
        checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="BIG_VERIF_HOOKS", enable="no hooks were needed: the public API exposes all the state the specification needs; the variable is reserved and unused", source_commits=[]),
         notes="Specification language: TLA+ (TLC). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
