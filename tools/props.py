#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run from /verif)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None,
         technique=None, level="other", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None,
                     **({"state": state} if state else {})),
        technique=technique, level=level, note=note, na=na))
exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id","title","statement","quantifier","why_tests_cant","anchors")}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"])); continue
    checks.append(dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']}",
        thorough_cmd=f"bash run.sh {p['id']}", technique=p["technique"], level=p["level"], level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="All checks are one Go program (checker/) that type-checks /repo/client from its working tree on every run and decides rules over SSA, CFG and syntax; see DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
