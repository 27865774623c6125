#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(top + "/seeded/*/meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = "".join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(by.items()))
d = top + "/DESIGN.md"
s = open(d).read()
s = re.sub(r"(\| property \| planted bugs \|\n\|---\|---\|\n)(\| C.*\n?)*", lambda m: m[1] + rows, s)
open(d, "w").write(s)
print(sum(map(len, by.values())), "planted bugs")
