#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (documentation only; no check reads seeded/)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
late = {"c16-depth-full": "after adding deep malformed texts", "c17-quadratic": "after tightening the linear-time monitor and adding mixed-stretch shapes",
        "c24-short-write": "after adding partial writes (file size limit)", "c24-large-file": "after adding files of several MB",
        "c26-delete-total": "after adding audit triggers", "c26-upsert-static": "after adding audit triggers", "c27-busy-silent": "after adding reserved locks"}
try: late.update(json.load(open(os.path.join(H, "tools", "seeded_notes.json"))))
except OSError: pass
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    n = late.get(d, "yes")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), n))
t = "| planted bug | check | what it breaks | caught |\n|---|---|---|---|\n" + "\n".join(rows)
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + t + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s); print(len(rows))
