#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md"""
import os, json, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = R + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows) + "\n"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE\n", t)
else:
    s = re.sub(r"\| change \| property .*?\n(\|.*\n)+", lambda m: t, s)
open(p, "w").write(s)
