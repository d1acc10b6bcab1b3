#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); import props
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
TECH = "symbolic execution of the LLVM IR compiled from the current sources (own executor), path conditions and assertions decided by z3; counterexamples replayed on the natively compiled code"
PYTECH = "symbolic execution of the Python wrapper code over symbolic terms with the nntile operations given their verified meaning; assertions decided by z3; counterexamples replayed on concrete values"
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
for i in ids:
    p = props.PROPS.get(i)
    if not p: m["not_applicable"].append({"property": i, "reason": props.NA.get(i, props.NA_DEFAULT)}); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": p.get("technique", PYTECH if p.get("py") else TECH), "level": "other", "level_note": p.get("note", "Bounded: every path and every value within the bounds is decided symbolically; reals instead of floating point unless stated. Bounds: " + p["bounds"])})
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks")
