#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md"""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__)) + "/../../seeded/"
by = {}
for m in sorted(glob.glob(H + "*/meta.json")):
    d = json.load(open(m))
    by.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)).split("-", 1)[1])
print("| check | planted bugs it catches (quick tier) |\n|---|---|")
for p in sorted(by):
    print("| %s | %s |" % (p, ", ".join(by[p])))
