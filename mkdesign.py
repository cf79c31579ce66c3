"""Writes the table of planted bugs into DESIGN.md (section 7) from seeded/*/meta.json and planted.txt (the
lines a run of the quick checks against them printed: bug, property, exit status, time, first case that noticed)."""
import json
import os
import re

here = os.path.dirname(os.path.abspath(__file__))
res = {}
for ln in open(os.path.join(here, "planted.txt")):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+)(?:\s+\S+)?\s*(?:case (\S+):)?", ln)
    if m:
        res[m.group(1)] = m.group(3), m.group(4) or ""
rows = ["| planted | property | what it needs to show | noticed by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    d = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    rc, case = res.get(b, ("?", ""))
    rows.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"].replace("|", "\\|").replace("\n", " "), "case `%s`" % case if rc == "1" else "**missed**" if rc in "02" else "not run"))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- planted -->")
s = s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
