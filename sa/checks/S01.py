"""S01: symbolic differentiation agrees with calculus."""
import load
import sem
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "every path of every der() override: value of the returned term == derivative of the value of the node")
    classes = [c for c in sorted(set(list(sem.UN) + list(sem.BI) + list(sem.NARY) + ["If", "Element", "Der"]))]
    values.report(db, R, "der", classes, values.spec_this_der, want=24 if tier == "quick" else 120, tries=600 if tier == "quick" else 3000)
    values.leaf_der(db, R)
    return R.finish("Every override of der() in the expression-node classes is analysed path by path on the type-checked AST (value-flow "
                    "extraction); the extracted closed form is compared with the derivative of the node's denotation.", values.ASSUME, min_ok=20)
