"""S02: simplify() preserves value."""
import load
import sem
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "every path of every simplify() override: value of the returned term, and of the node left behind, == value of the node before")
    classes = sorted(set(list(sem.UN) + list(sem.BI) + list(sem.NARY) + ["If", "Element", "Der"]))
    values.report(db, R, "simplify", classes, values.spec_this, want=24 if tier == "quick" else 120, tries=600 if tier == "quick" else 3000)
    values.predicates(db, R)
    return R.finish("Every override of simplify() is analysed path by path (value-flow extraction on the type-checked AST); each rewrite found "
                    "is checked as an algebraic identity between the node and the returned term.", values.ASSUME, min_ok=80)
