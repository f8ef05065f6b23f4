#!/usr/bin/env python3
"Fills in DESIGN.md's generated parts: properties, repaired defects, planted bugs."
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
how = json.load(open("tools/design.json"))
parts = {"properties": [], "fixed": [], "seeded": []}
for line in open("properties.jsonl"):
    p = json.loads(line)
    built = os.path.exists("pbt/props/%s.py" % p["id"].lower())
    parts["properties"].append("## %s. %s\n\n%s%s" % (p["id"], p["title"], how.get(p["id"], "(to come)"),
                                                    "" if built else "\n\n*Not built yet.*"))
for f in json.load(open("known_findings.json"))["findings"]:
    if f["status"] == "fixed":
        parts["fixed"].append("* %s `%s`: %s" % (f["property"], f["commit"], f["what"]))
    else:
        parts["fixed"].append("* %s (recorded, not repaired): %s" % (f["property"], f["what"]))
results = json.load(open("tools/seedresults.json")) if os.path.exists("tools/seedresults.json") else {}
parts["seeded"].append("| bug | property | needs | caught by its check |\n|---|---|---|---|")
rows = []
for path in sorted(glob.glob("seeded/*/meta.json")):
    name = path.split("/")[1]
    m = json.load(open(path))
    rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "\\|"),
                                           results.get(name, "?")))
parts["seeded"][0] += "\n" + "\n".join(rows)
text = open("DESIGN.md").read()
for name, items in parts.items():
    sep = "\n\n" if name == "properties" else "\n"
    text = re.sub(r"<!-- %s -->.*?(?=\n## (?:Not addressed|Genuine|Planted)|\Z)" % name,
                  lambda _: "<!-- %s -->\n\n%s\n" % (name, sep.join(items)), text, flags=re.S)
open("DESIGN.md", "w").write(text)
