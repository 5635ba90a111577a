"""S06: shapes of expressions."""
import load
import shapes
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "final state of every constructor of an expression class and of every operation of class Shape, extracted path by path, decided on all small shapes")
    shapes.check(db, R)
    return R.finish("Guards and final fields of every path are extracted from the type-checked AST; a shape is three numbers that the code only compares, copies and multiplies, "
                    "so that scalars, columns, rows and matrices of one, two and three rows and columns decide it.", values.ASSUME[2:], min_ok=30)
