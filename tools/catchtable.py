#!/usr/bin/env python3
"""Writes the table of the planted bugs in DESIGN.md (development only, no check uses it)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
text = open(H + "/DESIGN.md").read()
a = text.index("<!-- table -->")
b = text.index("<!-- end -->")
text = text[:a] + "<!-- table -->\n| planted change | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + text[b:]
open(H + "/DESIGN.md", "w").write(text)
