#!/usr/bin/env python3
"""Rewrites MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools")
import props
NOTES = json.load(open(R + "/tools/notes.json"))
checks, na = [], []
for p in props.P:
    i = p["id"]
    cc, py = (os.path.exists("%s/checks/%s.%s" % (R, i, e)) for e in ("cc", "py"))
    if not (cc or py):
        na.append({"property": i, "reason": NOTES["not_applicable"].get(i, "no check has been built yet (work in progress)")}); continue
    checks.append({"property": i, "quick_cmd": "./run %s --tier quick" % i, "thorough_cmd": "./run %s --tier thorough" % i,
        "technique": NOTES["technique"].get(i, "property-based testing: generated inputs against an independent reference model"),
        "level": "exploration", "level_note": NOTES["level_note"].get(i, "random structured generation with shrinking, AddressSanitizer build; no exhaustive guarantee")})
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
