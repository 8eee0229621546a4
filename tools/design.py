#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (bounds, fixes, planted bugs) from checks.json,
known_findings.jsonl and seeded/*/meta.json into the text of tools/design_text.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "checks.json")))
text = open(os.path.join(V, "tools/design_text.md")).read()
def bounds(pid):
    o = ""
    for e in cfg[pid]["entries"]:
        o += "  - `%s` - quick: %s. thorough: %s.\n" % (e["entry"], e["bounds"], e.get("bounds_thorough", "as quick"))
    return o
for pid in cfg:
    text = text.replace("@BOUNDS %s@\n" % pid, bounds(pid))
fx = "| property | commit | what failed |\n|---|---|---|\n"
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.strip():
        k = json.loads(l)
        if k["status"] == "fixed":
            fx += "| %s | %s | %s |\n" % (k["property"], k["commit"], k["record"].split(" ", 3)[3])
text = text.replace("@FIXES@\n", fx)
caught = json.load(open(os.path.join(V, "tools/caught.json")))
pl = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    pl += "| %s | %s | %s | %s |\n" % (i, j["property"], j["needs"], caught.get(i, "not run"))
text = text.replace("@PLANTED@\n", pl)
assert "@BOUNDS" not in text, text[text.index("@BOUNDS"):][:40]
open(os.path.join(V, "DESIGN.md"), "w").write(text)
