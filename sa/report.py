"""Collects decided obligations of one check run and turns them into exit code, VIOLATION /
KNOWN-FINDING lines and the evidence file."""
import json
import os
import sys
import time
from collections import Counter

from load import VERIF, REPO, Broken

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier, rule):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.items = []
        self.anchors = {}
        self.notes = []
        self.t0 = time.time()

    def ob(self, rule, func, case, status, detail="", file="", line=0, key=None):
        """status: ok | violation | undecided | vacuous"""
        self.items.append(dict(rule=rule, function=func, case=case, status=status, detail=detail, file=file, line=line,
                               key=key or "%s|%s|%s" % (rule, func, case)))

    def ok(self, rule, func, case="", detail="", file="", line=0):
        self.ob(rule, func, case, "ok", detail, file, line)

    def bad(self, rule, func, case, detail, file="", line=0, key=None):
        self.ob(rule, func, case, "violation", detail, file, line, key)

    def undecided(self, rule, func, case="", detail="", file="", line=0):
        self.ob(rule, func, case, "undecided", detail, file, line)

    def anchor(self, name, n):
        """number of constructs of a kind the rule was applied to"""
        self.anchors[name] = self.anchors.get(name, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def known(self):
        try:
            with open(KNOWN) as f:
                return [k for k in json.load(f)["findings"] if k.get("property") == self.prop and k.get("status") == "known"]
        except FileNotFoundError:
            return []

    def finish(self, explanation, assumptions=(), min_ok=1):
        known = self.known()
        viol, hit = [], {}
        seen = set()
        for it in self.items:
            if it["status"] != "violation":
                continue
            k = next((k for k in known if k["key"] == it["key"]), None)
            if k is not None:
                hit[k["key"]] = k
                continue
            if it["key"] in seen:
                continue
            seen.add(it["key"])
            viol.append(it)
        c = Counter(i["status"] for i in self.items)
        oks = [i for i in self.items if i["status"] == "ok"]
        samples = oks[:: max(1, len(oks) // 12)][:14]
        cov = dict(
            explanation=explanation, rule=self.rule,
            obligations=len(self.items), decided_ok=c["ok"], undecided=c["undecided"], vacuous=c["vacuous"],
            violations_found=c["violation"], functions_analysed=len(set((i["file"], i["function"]) for i in self.items)),
            by_rule={k: dict(Counter(i["status"] for i in self.items if i["rule"] == k)) for k in sorted(set(i["rule"] for i in self.items))},
            anchors=self.anchors,
            samples=[{k: i[k] for k in ("rule", "function", "case", "file", "line")} for i in samples],
            undecided_list=["%s %s [%s]: %s" % (i["rule"], i["function"], i["case"][:90], str(i["detail"])[:90]) for i in self.items if i["status"] == "undecided"][:60],
            notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                  assumptions=list(assumptions), violations=len(viol), wall_s=round(time.time() - self.t0, 2))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d hold, %d undecided, %d vacuous, %d violations (%.1f s)" % (
            self.prop, len(self.items), c["ok"], c["undecided"], c["vacuous"], len(viol), time.time() - self.t0))
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if viol:
            rp = os.path.join(d, self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump(viol, f, indent=1, default=str)
            for v in viol[:20]:
                print("  %s:%s %s [%s] %s: %s" % (os.path.relpath(v["file"], REPO) if v["file"] else "", v["line"], v["function"], v["case"][:120], v["rule"], str(v["detail"])[:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if c["ok"] < min_ok:
            print("note: only %d obligations decided (%d and more on the tree this was written for)" % (c["ok"], min_ok))
        if c["ok"] < 1:
            print("analysis broken: nothing was decided")
            return 2
        return 0
