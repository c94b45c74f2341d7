#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: repaired defects and planted bugs."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
fixed = json.load(open(os.path.join(V, "known_findings.json")))["fixed"]
rows = ["| property | commit | what failed or was repaired |", "|---|---|---|"]
for f in fixed:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f); rows.append("| %s | %s | %s |" % m.groups())
bugs = ["| planted bug | check that reports it | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
for k, t in (("fixes", rows), ("bugs", bugs)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + "\n".join(t) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(fixed), "repairs,", len(bugs) - 2, "planted bugs")
