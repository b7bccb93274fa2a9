"""Write properties.jsonl and MANIFEST.json from table.py (properties whose check exists)."""
import json
import os

import table

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the package's Python sources on symbolic arrays (exact polynomial normal forms), obligations decided by z3 (nonlinear real arithmetic); counterexamples replayed on the real code"
rows, checks, na = [], [], []
for p in table.P:
    have = os.path.exists(os.path.join(ROOT, "props", p["id"] + ".py"))
    rows.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier={"over": p["over"], "text": p["text"]}, why_tests_cant=p["why"], anchors={"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [], "hook_needed": None}))
    assert len(p["title"]) <= 80, p["id"]
    if have:
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough", technique=TECH, level="other", level_note="Bounded symbolic verification of the real code: holds for every input within the bounds - " + p["bounds"] + ". Arithmetic is exact real/complex arithmetic, not floating point."))
    else:
        na.append(dict(property=p["id"], reason="no check built yet"))
for id, title, st, over, text, why, files, reason in table.NA:
    rows.append(dict(id=id, title=title, statement=st, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": [], "hook_needed": None}))
    na.append(dict(property=id, reason=reason))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore -m symnn.selftest", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
