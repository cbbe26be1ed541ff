#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table in claims.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import claims

m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in [json.loads(x)["id"] for x in open("/verif/properties.jsonl")]:
    if p in claims.CLAIMS:
        c = claims.CLAIMS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", claims.TECH), "level": c.get("level", "proof"),
            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": claims.NA[p]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
