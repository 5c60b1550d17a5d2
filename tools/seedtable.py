#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | needs |\n|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    print("| %s | %s | %s |" % (d, m["property"], m["needs"]))
