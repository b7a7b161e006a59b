#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing it)."""
import json
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
B, F, C = "finmlkit/bar/", "finmlkit/feature/", "finmlkit/feature/core/"

# id, title, statement, over, quantifier text, why, files, mechanisms, technique, note   (technique None: not claimed)
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec((ROOT / "tools" / "table.py").read_text())

with open(ROOT / "properties.jsonl", "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q check.py sa", "checks": [], "not_applicable": []}
for x in sorted(P, key=lambda x: x["id"]):
    if x["technique"]:
        man["checks"].append({"property": x["id"], "quick_cmd": f"python3 check.py {x['id']} --tier quick",
                              "thorough_cmd": f"python3 check.py {x['id']} --tier thorough",
                              "technique": "static analysis: " + x["technique"], "level": "other", "level_note": x["note"]})
    else:
        man["not_applicable"].append({"property": x["id"], "reason": x["na"]})
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
