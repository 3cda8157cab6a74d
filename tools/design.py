#!/usr/bin/env python3
"""Maintainer helper: refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
t = "| caught by | change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (a, b, c.replace("|", "/").replace("\n", " ")) for a, b, c in sorted(rows))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: "<!-- plants -->\n" + t + "<!-- /plants -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows), "planted bugs")
