#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md: the table of planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
s = open(V + "/DESIGN.md").read()
body = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "__SEEDED__" in s:
    s = s.replace("__SEEDED__", body)
else:
    s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: body, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
