#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

Run by hand when the table changes; the outputs are committed.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=None,
         observe=None, claim=True, note="", tech="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mechanism=mechanism, state=state or [],
                  observe=observe or [], claim=claim, note=note, tech=tech, na=na))

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

for p in P:
    if p["claim"] and not os.path.isdir(os.path.join(ROOT, "harness", p["id"].lower())):
        p["claim"], p["na"] = False, "harness not built yet"

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        o = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "hook_needed": None,
            },
        }
        if p["state"]:
            o["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")

TECH = "bounded symbolic execution of the real code (go/ssa -> SMT-LIB bit-vectors, z3), counterexamples replayed natively"
NOTE = ("Solver verdict for every value inside the bounds listed in the evidence file and DESIGN.md; nothing is claimed "
        "outside them. Trusts the SSA-to-SMT encoder, z3, and the environment stubs listed as assumptions; every "
        "counterexample is re-run against the compiled code before it is reported.")
claimed = [p for p in P if p["claim"]]
manifest = {
    "version": 1,
    "setup_cmd": "bash ./setup.sh",
    "hooks": {"guard": "verif", "enable": "no hooks are committed in /repo; harnesses are added with a build overlay (go/packages Overlay for the encoder, go test -overlay for replay)", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "bash ./check.sh %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bash ./check.sh %s" % p["id"],
            "technique": p["tech"] or TECH,
            "level": "model_checking",
            "level_note": p["note"] or NOTE,
        } for p in claimed
    ],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claim"]],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
