#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import REGISTRY, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup",
         checks=[], not_applicable=[],
         notes="TLA+ specifications in spec/, checked with TLC; bound to the code by replaying what TLC exports "
               "and by having TLC judge records of the real code. See DESIGN.md.")
for i in ids:
    if i in REGISTRY:
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i,
                                thorough_cmd="bin/check %s --tier thorough" % i,
                                technique="TLA+/TLC model checking with two-way conformance (replay of exported "
                                          "behaviours, TLC verdicts on recorded executions)",
                                level="model_checking", level_note=NOTES[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
