#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
missed = {l.strip() for l in open(root + "/seedlib/missed.txt")} if os.path.exists(root + "/seedlib/missed.txt") else set()
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), "-" if b in missed else m["property"]))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
