#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json; run after editing"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
PY = "python3-vt check.py %s --tier %s"
m = dict(version=1, setup_cmd="python3-vt sa/load.py",
         checks=[dict(property=p["id"], quick_cmd=PY % (p["id"], "quick"), thorough_cmd=PY % (p["id"], "thorough"), technique=p["technique"],
                      level="other", level_note=p["note"]) for p in P if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
         notes="Static analysis of /repo's current sources (clang AST of every C++ unit, Python ast of pymbs). No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
