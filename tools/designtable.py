#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | what it breaks | needs | caught by |")
print("|---|---|---|---|")
also = {}
p = os.path.join(here, "tools", "caught.json")
if os.path.exists(p):
    also = json.load(open(p))
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    print("| %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], " ".join(also.get(i, [d["property"]]))))
