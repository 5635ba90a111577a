"""X02: the graph is handed the equations, variables and options given in Python."""
import graphapi
import load
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions", "wrapper"])
    R = Report(prop, tier, "calls the methods of the Python graph object make on the graph and on the writers, extracted path by path with the Python C API uninterpreted, evaluated on abstract Python arguments and compared with what was given")
    graphapi.check(db, R)
    return R.finish("The method table of the graph object is read from the type-checked AST; the arguments of the calls made on each path are terms over the Python arguments, decided for scalars, matrices, "
                    "lists, nested lists, blocks of equations, None and unsuitable objects.", values.ASSUME[2:], min_ok=8)
