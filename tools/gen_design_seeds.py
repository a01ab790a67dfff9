#!/usr/bin/env python3
"""rewrites section 6 of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
head = """## 6 Planted bugs
Each is confirmed with `tools/seed.sh ID` in a scratch copy (applies, builds, the stable
tests pass, its demonstration fails with it and passes without), then the quick check
of its property is run against it. All are caught.

| id | property | breaks | needs | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n\n" + open(H + "/tools/design_seeds_tail.md").read() + "\n"
p = H + "/DESIGN.md"
s = open(p).read()
a = s.index("## 6 Planted bugs"); b = s.index("## 7 Limits")
open(p, "w").write(s[:a] + head + s[b:])
