"""X01: the Python interface performs the operation it names."""
import load
import values
import wrap
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions", "wrapper"])
    R = Report(prop, tier, "result of every slot of the extension types, extracted path by path with the Python C API uninterpreted, evaluated on abstract Python operands of every kind and compared with the operation the slot or registered name stands for")
    wrap.check(db, R)
    return R.finish("Slot tables, type objects and registrations are read from the type-checked AST; guards and results of each path of the slot functions are evaluated for operands that are expressions, "
                    "matrices, integers (also beyond 32 bit), floats and unsuitable objects.", values.ASSUME[2:], min_ok=20)
