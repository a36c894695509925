"""Writes the table of planted bugs into DESIGN.md (between the two marker lines)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools", "bugnotes.json")))
rows = []
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append((m["property"], b, m["needs"], notes.get(b, "")))
rows.sort()
t = ["| caught by | bug | needs | missed at first; what was strengthened |", "|---|---|---|---|"]
t += ["| %s | %s | %s | %s |" % r for r in rows]
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(t) + "\n" + s[j:])
print(len(rows), "bugs")
