#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []      # properties
NA = []     # (id, reason)

def prop(id, title, statement, over, qtext, why, files, mech, tech, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, tech, note))

BASE = ("Abstract interpretation of the type-checked SSA; values are terms modulo the ring, group, byte-string and "
        "pairing laws. Trusted: the checker (checker/*.go), its library models (checker/models.go), the reference "
        "definitions (checker/spec) and that digests do not collide. Loops over inputs of unbounded size are decided "
        "per size for a range of sizes (plus the sizes next to constants in the code), with the contents symbolic; ")

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1,
       "setup_cmd": "bash tools/setup.sh",
       "checks": [{"property": p["id"],
                   "quick_cmd": "bash tools/check.sh " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash tools/check.sh " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": t, "level": "other", "level_note": n}
                  for p, t, n in P if p["id"] not in dict(NA)],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA],
       "notes": "No hooks in /repo; the checks read its source. Known findings: known-findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
