#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and plants/results.json."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/plants/results.json"))
rows = ["| planted bug | needs | own check | other checks tried |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    r = dict(res.get(i, {}))
    own = r.pop(m["property"], "not run")
    rest = ", ".join(f"{k} {v}" for k, v in sorted(r.items())) or ""
    rows.append(f"| {i} | {m['needs']} | {own} | {rest} |")
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- PLANT TABLE -->\n" + "\n".join(rows) + "\n<!-- END PLANT TABLE -->"
if "<!-- END PLANT TABLE -->" in s:
    s = re.sub(r"<!-- PLANT TABLE -->.*<!-- END PLANT TABLE -->", lambda _: t, s, flags=re.S)
else:
    s = s.replace("<!-- PLANT TABLE -->", t)
open(p, "w").write(s)
print(len(rows) - 2, "planted bugs,", sum("| caught |" in x for x in rows), "caught by their own check")
