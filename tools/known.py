"""Writes known_findings.json: genuine defects, recorded ("known") or repaired ("fixed")."""
import json
import os
F = []


def fixed(prop, commit, what):
    F.append(dict(property=prop, status="fixed", what="fixed: property=%s %s %s" % (prop, commit, what)))


def known(prop, key, what):
    F.append(dict(property=prop, status="known", key=key, what=what))


here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "known_data.py")).read())
json.dump(dict(findings=F), open(os.path.join(os.path.dirname(here), "known_findings.json"), "w"), indent=1)
