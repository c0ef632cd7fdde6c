#!/usr/bin/env python3
"""Refresh the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property and check | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s quick | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"\| planted bug \|.*?\n\n", lambda _: t + "\n\n", s, flags=re.S)
open(p, "w").write(s)
