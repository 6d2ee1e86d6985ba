#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                      technique=checks.CHECKS[i]["technique"], level=checks.CHECKS[i]["level"], level_note=checks.CHECKS[i]["note"]) for i in ids if i in checks.CHECKS],
         not_applicable=[])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
