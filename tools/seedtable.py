#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
h = "| id | needs | what breaks |\n|---|---|---|\n"
a = s.index(h, s.index("## Planted bugs")) + len(h)
b = a
while s[b:b + 1] == "|":
    e = s.find("\n", b)
    b = len(s) if e < 0 else e + 1
rows = ""
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows += "| %s | %s | %s |\n" % (d, m["needs"], m["what_it_breaks"])
open(p, "w").write(s[:a] + rows + s[b:])
