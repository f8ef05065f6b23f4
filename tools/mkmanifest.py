#!/usr/bin/env python3
"Writes MANIFEST.json: every property with a module in pbt/props is claimed."
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
NOTES = {}
if os.path.exists("tools/notes.json"):
    NOTES = json.load(open("tools/notes.json"))
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists("pbt/props/%s.py" % p.lower()):
        n = NOTES.get(p, {})
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": n.get("technique", "property-based testing (Hypothesis generators, "
                               "shrinking) against an independent oracle"),
            "level": "exploration",
            "level_note": n.get("level_note", "generated inputs only, within the bounds "
                                "described in DESIGN.md section %s" % p)})
    else:
        na.append({"property": p, "reason": "no check has been built for it (yet)"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
           "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
