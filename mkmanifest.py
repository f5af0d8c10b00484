#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json
from checks import CHECKS

NOTES = {
    "default": "Random and bounded-exhaustive search with a reference oracle over generated inputs; a violation outside the explored cases is not excluded. Trusts the oracle models, proptest and rustc.",
    "programs": "Search over generated client programs; rustc's verdict on each is compared with a capability model. Trusts rustc's type and borrow checker and the model.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": c.get("technique", "property-based testing: generated client programs, accepted or rejected by rustc, against a model of brands, proofs, capabilities and borrows" if c.get("programs") else "property-based testing (proptest + bounded-exhaustive enumeration) against a reference model"),
            "level": "exploration",
            "level_note": c.get("note", NOTES["programs" if c.get("programs") else "default"]),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use only the public API of the crate. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
