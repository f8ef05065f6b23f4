"Records a repaired defect: addfix.py PROPERTY COMMIT 'what failed'."
import json
import sys
import os
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
data = json.load(open(path))
pid, commit, what = sys.argv[1:4]
data["findings"].append({"property": pid, "status": "fixed", "commit": commit, "what": what,
                         "line": "fixed: property=%s %s %s" % (pid, commit, what)})
json.dump(data, open(path, "w"), indent=1)
open(path, "a").write("\n")
