#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md"""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(R + "/seeded"):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    f = [os.path.basename(x[6:].strip()) for x in open("%s/seeded/%s/patch.diff" % (R, d)) if x.startswith("+++ ")]
    rows.append("| %s | %s | %s | %s |" % (m["property"], d, ", ".join(f), m["needs"]))
s = open(R + "/DESIGN.md").read()
head = "| property | bug | file | needs |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
open(R + "/DESIGN.md", "w").write(s[:i] + "\n".join(sorted(rows)) + "\n")
