"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "seeded_notes.json")))
rows = ["| planted bug | needs | caught by | note |", "|---|---|---|---|"]
metas = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        metas.append((json.load(open(f))["property"], d, json.load(open(f))))
for p, d, m in sorted(metas, key=lambda t: t[:2]):
    n = NOTES.get(d, {})
    rows.append("| `%s` | %s | %s | %s |" % (d, m["needs"].replace("|", "/").replace("\n", " "), n.get("by", p), n.get("note", "")))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(f, "w").write(s)
