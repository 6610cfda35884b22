#!/usr/bin/env python3
"""Source of MANIFEST.json: run `python3 tools/gen_manifest.py > MANIFEST.json`."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]

# property: (technique, note)
claims = {}
exec(open(os.path.join(here, "claims.py")).read())

checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in claims:
        missing.append({"property": i, "reason": unclaimed[i]})
        continue
    tech, note = claims[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
print(json.dumps({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks run the public API of the library built from /repo's working tree; there are no hooks in /repo.",
}, indent=1, ensure_ascii=False))
