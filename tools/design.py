#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the table of planted bugs (seeded/*/meta.json, tools/seeded.json)."""
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = json.load(open(root + "/tools/seeded.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), res.get(i, "not run")))
open(root + "/DESIGN.md", "w").write(open(root + "/tools/design.md").read().replace("SEEDTABLE", "\n".join(rows)))
