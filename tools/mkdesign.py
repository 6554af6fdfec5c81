#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), d["property"], d["needs"]))
f = here + "/DESIGN.md"
t = open(f).read()
head = "| bug | caught by | needs |\n|-----|-----------|-------|\n"
i = t.index(head) + len(head)
j = t.index("\n\n", i) if "@@BUGS@@" not in t else t.index("@@BUGS@@") + len("@@BUGS@@")
t = t[:i] + "\n".join(rows) + t[j:]
open(f, "w").write(t)
