#!/usr/bin/env python3
"""Single source of the property texts; writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, observe, claimed=True, na=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)
    if not claimed:
        NA.append({"property": id, "reason": na})

exec(open(os.path.join(V, "tools", "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
cfg = json.load(open(os.path.join(V, "checks.json")))
na = {x["property"] for x in NA}
checks = []
for p in P:
    if p["id"] in na:
        continue
    c = cfg[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the LLVM IR of the real code with Z3 (bounded), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every path of the real code within the bounds is explored with symbolic inputs; the solver decides each branch and assertion. Bounds: "
        + " | ".join(e["bounds"] for e in c["entries"])
        + ". Trusts rustc/LLVM, Z3, and the IR interpreter in /verif/engine (validated per run by native replay of sampled paths); hashing abstracted, single thread.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the harness crate /verif/harness uses only the public API (features = full)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
