#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run by hand after editing props.py)."""
import json, props
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    c = props.PROPS.get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check registered yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses /repo's public API at a symbolic scalar type"},
     "notes": "Contracts live in vcg/src/h/*.rs (harness contracts), verus/ (Verus contracts on bodies extracted by extract/), formula/; see DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
