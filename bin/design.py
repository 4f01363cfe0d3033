#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, known_findings.json and seeded/*/meta.json (run by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.in.md").read()
fx = json.load(open(V + "/known_findings.json"))["fixed"]
by = {}
for f in fx:
    _, p, h, t = f.split(" ", 3)
    by.setdefault(p[9:], []).append((h, t))
s = s.replace("%FIXED%", "\n".join("* **%s** %s" % (p, "; ".join("%s (%s)" % (t, h) for h, t in by[p])) for p in sorted(by)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "\\|"), d.get("caught", "yes")))
s = s.replace("%SEEDS%", "| change | property | needs | caught |\n|---|---|---|---|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
