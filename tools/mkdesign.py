#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by (quick) | needs |", "|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].strip().replace("|", "/")))
p = H + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
