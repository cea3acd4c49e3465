#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props_*.py (authoring aid; no check uses it)."""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, V]
import rules
L = []
NA = []
for f in sorted(os.listdir(H)):
    if f.startswith("props_") and f.endswith(".py"):
        m = importlib.import_module(f[:-3])
        L += m.P
        NA += getattr(m, "NA", [])
na = {x[0] for x in NA}
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in L:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["st"].count(". ") <= 2, (p["id"], p["st"].count(". "))
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"].strip(),
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
M = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
for p in L:
    if p["id"] in na:
        continue
    r = rules.PROPS[p["id"]]
    M["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                        "technique": r.get("technique") or "static analysis: path-sensitive effect/value-flow analysis (abstract interpretation of the type-checked MIR over provenance terms, loops summarised by induction) compared against a per-entry-point effect table",
                        "level": "other", "level_note": r["rule"]})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(L), "properties", len(M["checks"]), "checks", len(NA), "n/a")
