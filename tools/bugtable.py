#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. A bug that a check does not catch is named in MISSED."""
import glob
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = []
for f in sorted(glob.glob(VERIF + "/seeded/*/meta.json")):
    d, b = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (b, d["needs"].replace("|", "/"), "-" if b in MISSED else d["property"]))
p = VERIF + "/DESIGN.md"
t = open(p).read()
head = "| bug | needs | caught by |\n| --- | --- | --- |\n"
a = t.index(head) + len(head)
e = t.find("\n\n", a)
t = t[:a] + "\n".join(rows) + ("\n" if e < 0 else t[e:])
open(p, "w").write(t)
