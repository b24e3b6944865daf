"""Writes the table of planted changes into DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["needs"].replace("|", "/").replace("\n", " ")))
rows.sort()
t = "| check that catches it | planted change | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in rows)
f = V + "/DESIGN.md"
s = open(f).read()
a, b = "<!-- table:begin -->\n", "<!-- table:end -->"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(f, "w").write(s)
