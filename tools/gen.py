#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the records below (committed output; run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
sys.path.insert(0, os.path.join(V, "checks"))
B = "include/boost/numeric/interval/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, level="proof", na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())

import check
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps({
            "id": d["id"], "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["text"]},
            "why_tests_cant": d["why"],
            "anchors": {"files": [B + x for x in d["files"]],
                        "mechanism": [{"name": n, "where": B + w} for n, w in d["mech"]]}}, ensure_ascii=False) + "\n")
checks, na = [], []
for d in P:
    if d["na"] or d["id"] not in check.WHERE:
        na.append({"property": d["id"], "reason": d["na"] or "the check for this property is not finished"})
        continue
    checks.append({"property": d["id"],
                   "quick_cmd": "python3 sa/check.py %s --tier quick" % d["id"],
                   "thorough_cmd": "python3 sa/check.py %s --tier thorough" % d["id"],
                   "technique": d["technique"], "level": d["level"], "level_note": d["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo's current headers: they compile the client translation units in harness/ with clang "
              "to LLVM IR (never executed) and interpret that IR abstractly, or query the preprocessed source. "
              "known_findings.jsonl lists repaired defects and recorded findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
