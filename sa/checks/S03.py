"""S03: constructing factories (New) fold without changing the value."""
import load
import sem
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "every path of every static New(): value of the returned term == the operation applied to the arguments")
    classes = sorted(set(list(sem.UN) + list(sem.BI) + list(sem.NARY) + ["If", "Element", "Der"]))
    values.report(db, R, "New", classes, values.spec_new, want=24 if tier == "quick" else 120, tries=600 if tier == "quick" else 3000)
    return R.finish("Every static factory New() is analysed path by path (value-flow extraction on the type-checked AST); each folding found "
                    "is checked as an algebraic identity.", values.ASSUME, min_ok=80)
