#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from plans.py and properties.jsonl (run by hand).
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Exhaustive model checking of the laws of this property on the specification for small constants, and validation by TLC of "
        "recorded executions of the real code (exhaustive small cases and seeded random larger ones). Assumes that code behaves outside of "
        "the explored inputs as inside; trusts TLC, the Go toolchain and the recording driver.")
checks, na = [], []
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           technique="TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC" if p not in getattr(plans, "REPLAY", ()) else "TLA+ specification checked with TLC; cases generated by TLC replayed on the real code, recorded executions validated against the specification",
                           level="model_checking", level_note=plans.NOTES.get(p, NOTE) if hasattr(plans, "NOTES") else NOTE))
    else:
        na.append(dict(property=p, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="No hooks: everything the checks observe is public API of aiq/tok. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
