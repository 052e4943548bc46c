#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single place that lists what is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, level, note, claimed=True, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, level=level, note=note, claimed=claimed, na=na, technique=technique))

TECH = "bounded exhaustive enumeration (explicit-state, deviation-bounded) of {} executed on the real code and compared in lockstep with an executable reference model"

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        } for p in P if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claimed"]],
        "notes": "All checks share one binary (mc/) rebuilt from /repo's working tree by check.sh. No hook in /repo is needed.",
    }
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

main()
