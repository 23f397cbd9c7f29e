#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    t.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = "".join("| %s | %s |\n" % (p, ", ".join(t[p])) for p in sorted(t))
s = open(R + "/DESIGN.md").read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n| property | planted bugs |\n|---|---|\n" + rows + "<!-- end -->", s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
