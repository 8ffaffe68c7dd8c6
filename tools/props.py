#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "static analysis: value-graph abstract interpretation of the Go SSA form (gated value numbering with joins, polynomial/group/byte-string normal forms)"
props, checks, na = [], [], []

def P(id, title, statement, over, text, why, files, mech, note=None, observe=None, level="proof", technique=T):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if note is None:
        return
    if note.startswith("NA:"):
        na.append({"property": id, "reason": note[3:].strip()})
    else:
        checks.append({"property": id, "quick_cmd": f"bash /verif/run.sh {id} quick", "thorough_cmd": f"bash /verif/run.sh {id} thorough",
                       "evidence_file": f"/verif/evidence/{id}.json", "technique": technique, "level": level, "level_note": note})

exec(open(os.path.join(V, "tools", "props_table.py")).read())

for p in props:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Properties, methods, limits and the results on planted bugs are described in DESIGN.md."}, f, indent=1, ensure_ascii=False)
    f.write("\n")
