#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed if its id is in CLAIMED."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "crates/mitex-lexer/src/"
P = "crates/mitex-parser/src/"
D = "packages/typst-dom/src/"
C = "crates/mitex/src/converter.rs"
S = "crates/mitex-spec/src/"
props = []
level_notes = {}

def p(id, title, statement, over, quant, why, files, mech, note, observe=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["mitex::convert_text", "mitex::convert_math"], "hook_needed": None}})
    level_notes[id] = note

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

ids = [q["id"] for q in props]
assert len(set(ids)) == len(ids)
for q in props:
    assert len(q["title"]) <= 80, q["id"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for i in ids:
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i} quick",
            "thorough_cmd": f"./run.sh check {i} thorough",
            "technique": TECH.get(i, "explicit-state exhaustive enumeration against a reference model, every trace replayed on the implementation"),
            "level": "model_checking",
            "level_note": level_notes[i],
        })
man = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CLAIMED],
    "notes": "No hooks are needed in /repo: every check drives public API, the built CLI, or a source file included by path. "
             "run.sh rebuilds all mitex crates from /repo's working tree before every check.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
