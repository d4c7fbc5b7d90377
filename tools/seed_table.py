#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
# (key "caught_by": checks that have been seen to report it).
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
mark = "Which checks catch them:\n"
head = s[:s.index(mark) + len(mark)]
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"], d.get("caught_by", "none")))
rows.sort()
t = "\n| property | id | breaks | needs | caught by |\n|---|---|---|---|---|\n"
for r in rows:
    t += "| " + " | ".join(str(x).replace("|", "/") for x in r) + " |\n"
tail = ""
if "<!-- end of table -->" in s:
    tail = s[s.index("<!-- end of table -->"):]
else:
    tail = "<!-- end of table -->\n"
open(V + "/DESIGN.md", "w").write(head + t + "\n" + tail)
