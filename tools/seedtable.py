#!/usr/bin/env python3
"""Development tool: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    rows.append((m["property"], f.split("/")[-2], " ".join(n.split()).replace("|", "/")))
rows.sort()
t = "| property, caught by its own check | planted bug | what it needs to manifest |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("SEEDTABLE", "<!--seeds-->\n<!--/seeds-->")
s = re.sub(r"<!--seeds-->.*?<!--/seeds-->", lambda _: "<!--seeds-->\n" + t + "<!--/seeds-->", s, flags=re.S)
open(p, "w").write(s)
