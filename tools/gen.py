#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/komm/"
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            rec=dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(
                    files=[S + f for f in files],
                    mechanism=[dict(name=n, where=S + w) for n, w in mech],
                    observe_at=observe, hook_needed=None,
                ),
            ),
            technique=technique, note=note,
        )
    )


NA = []
exec(open(os.path.join(V, "tools", "table.py")).read())

checks, recs = [], []
for p in P:
    r = p["rec"]
    i = r["id"]
    recs.append(r)
    if any(n["property"] == i for n in NA):
        continue
    assert os.path.exists(os.path.join(V, "mc", i.lower() + ".py")), i
    for f in r["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (i, f)
    checks.append(
        dict(
            property=i,
            quick_cmd=f"{PY} check.py {i} --tier quick",
            thorough_cmd=f"{PY} check.py {i} --tier thorough",
            technique=p["technique"], level="model_checking", level_note=p["note"],
        )
    )
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in recs:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(
        dict(
            version=1,
            setup_cmd=f"{PY} tools/setup.py",
            checks=checks,
            not_applicable=NA,
            notes="The checks import komm from /repo/src (working tree); no hooks are used, nothing is built.",
        ),
        f, indent=1, ensure_ascii=False,
    )
    f.write("\n")
print(len(recs), "properties", len(checks), "checks")
