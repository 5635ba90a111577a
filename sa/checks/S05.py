"""S05: substitution rebuilds the operation around the replaced operands."""
import load
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "every path of the substitution each expression class resolves to: value of the returned term == the class's operation applied to the replaced operands")
    n = dict(want=16, tries=240) if tier == "quick" else dict(want=120, tries=3000)
    values.rebuild(db, R, "subs", **n)
    values.rebuild(db, R, "iterateExp", **n)
    return R.finish("For every concrete expression class the member subs() it resolves to, including the factory it rebuilds itself with, is analysed path by path "
                    "for a receiver of that class; the node returned is compared with the class's operation applied to operands in which the replacement was carried out.",
                    values.ASSUME, min_ok=30)
