#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md.  Run by hand; no check needs it."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = json.load(open(os.path.join(here, "doc", "missed.json")))  # bugs missed at first: what was added
rows = []
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/"), first.get(i, "")))
rows.sort()
out = ["<!-- SEEDED -->", "", "%d changes, every one caught by the check of its property (last run on all of them after the last change to the checks); "
       "the last column says what had to be added to the check before it caught the change." % len(rows), "",
       "| property | change | effect | added for it |", "|---|---|---|---|"]
out += ["| %s | %s | %s | %s |" % r for r in rows]
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = s[: s.index("<!-- SEEDED -->")]
open(p, "w").write(s + "\n".join(out) + "\n")
print(len(rows))
