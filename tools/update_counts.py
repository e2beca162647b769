"""Rewrites the cost and size in the headings of DESIGN.md from evidence/ of the last quick runs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
def n(x):
    for d, u in ((1e9, "G"), (1e6, "M"), (1e3, "k")):
        if x >= d:
            return "%.3g %s" % (x / d, u)
    return str(x)
def sub(m):
    e = json.load(open(os.path.join(V, "evidence", m[1] + ".json")))
    c = e["coverage"]
    if e.get("tier") != "quick":
        return m[0]
    return "### %s %s (%.0f s; %s states, %s transitions, %s comparisons)" % (m[1], m[2], e["wall_s"], n(c["states"]), n(c["transitions"]), n(c["traces_validated_against_impl"]))
s = re.sub(r"^### (C\d\d) (.*?) \(.*\)$", sub, s, flags=re.M)
open(f, "w").write(s)
