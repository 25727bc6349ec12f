#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "lib", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = notes.get(i, {})
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": "TLA+ specification: TLC model checking, plus TLC trace validation of the compiled code"
                         + (", TLC-generated behaviours replayed" if n.get("gen") else ""),
            "level": "model_checking",
            "level_note": n.get("note", "Design properties are model checked on the specification in the stated bounds; "
                          "the code is bound to it by validating recorded runs, so the assurance on the code is "
                          "that of the explored runs. Trusts TLC, the compiler and the harness's projection.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "its check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All specifications are TLA+ (spec/*.tla), checked with TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
