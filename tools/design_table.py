"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"p11-full-row": "P11, P09", "p10-set-capacity": "P10, P09", "p16-view-rows": "P16, P32"}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (i, m["needs"], ALSO.get(i, m["property"])))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
