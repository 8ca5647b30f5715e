#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "src/"
P = []

def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), technique=None, note="", level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, q=qtext, over=list(over), why=why, files=files, mech=mech,
                  technique=technique or "explicit-state exhaustive enumeration of a bounded input space on the real code against an independent reference model",
                  note=note, level=level))

ONE = "The existing tests compare a handful of fixed inputs with stored values; the guarantee quantifies over every input, and the special cases (%s) are never visited."

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": [REPO + x for x in p["files"]],
                            "mechanism": [{"name": n, "where": REPO + w} for n, w in p["mech"]]}}) + "\n")
    checks = []
    for p in P:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"],
                       "level_note": p["note"] or "Every point of the stated finite domains is executed on the library built from the working tree; inputs outside the domains are not covered."})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
         "notes": "run.py builds the library from /repo/src into /verif/.build (ignored by git) on every run; no hooks in /repo are needed."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert os.path.exists(os.path.join(HERE, "checks", p["id"] + ".cc")), p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/src/" + x), x

main()
