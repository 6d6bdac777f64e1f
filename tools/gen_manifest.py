#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks = [dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
               evidence_file="evidence/%s.json" % i, technique=PROPS[i]["technique"], level="exploration",
               level_note=PROPS[i].get("note", "Held on every execution observed; executions are generated, not enumerated."))
          for i in ids if i in PROPS]
m = dict(version=1, setup_cmd="python3 check.py --selftest-build", checks=checks,
         not_applicable=[dict(property=i, reason="not built yet") for i in ids if i not in PROPS])
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
