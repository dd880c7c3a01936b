#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | what it needs to show | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "\\|"), m["property"]))
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
open(p, "w").write(s)
