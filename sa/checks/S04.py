"""S04: equality and order of expressions are faithful."""
import load
import decide
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "decision function of every operator== and operator< of the expression classes, extracted path by path, decided on all small combinations of operands")
    decide.decide(db, R)
    return R.finish("The paths of every comparison operator (guards and returned condition) are extracted from the type-checked AST; operands are opaque elements of a totally "
                    "ordered set, so finitely many combinations decide the function.", values.ASSUME[2:], min_ok=40)
