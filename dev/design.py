"""Writes DESIGN.md from its text (dev/design.txt), the properties and the catch table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bsa.registry import PROPERTIES
from bsa.rules import RULES

text = open(os.path.join(V, "dev", "design.txt")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
chk = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c for c in man["not_applicable"]}
mods = {"copymon": "copy", "parsemon": "gates", "bdevmon": "block device", "transmon": "reading", "climon": "command line",
        "fmapmon": "maps", "helpermon": "file systems", "createmon": "creation", "writemon": "writer script"}
out = []
for d in props:
    i = d["id"]
    if i in chk:
        ts = PROPERTIES[i]["tasks"]
        by = {}
        for t in ts:
            by[t[0]] = by.get(t[0], 0) + 1
        th = len(PROPERTIES[i]["thorough"])
        out.append("### %s %s\n" % (i, d["title"]))
        out.append("* Demanded of every path: " + RULES[i])
        out.append("* Decided by: " + chk[i]["technique"] + ".")
        out.append("* Analyses: %s%s." % (", ".join("%d of %s (`bsa/%s.py`)" % (n, mods[m], m) for m, n in by.items()),
                                          "; thorough adds %d" % th if th else ""))
        out.append("* Scope and trust: " + chk[i].get("level_note", ""))
        out.append("* Why this reaches what tests cannot: " + d["why_tests_cant"])
        out.append("")
nas = ["* **%s** (%s): %s" % (i, next(d["title"] for d in props if d["id"] == i), c["reason"]) for i, c in na.items()]
rows = ["| planted bug | property | needs | reported by its check |", "|---|---|---|---|"]
caught = {}
try:
    caught = json.load(open(os.path.join(V, "dev", "caught.json")))
except OSError:
    pass
sd = os.path.join(V, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "yes")))
text = text.replace("@PROPERTIES@", "\n".join(out)).replace("@NA@", "\n".join(nas)).replace("@SEEDS@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(text)
