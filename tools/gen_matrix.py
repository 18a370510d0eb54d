#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (between the matrix markers)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s quick | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- matrix -->\n", "<!-- /matrix -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
