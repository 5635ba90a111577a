"""S07: arithmetic of matrix literals."""
import load
import matrices
import values
from report import Report


def run(prop, tier):
    db = load.DB(["core", "functions"])
    R = Report(prop, tier, "final elements and shape of every operator, constructor and accessor of the matrix classes, extracted path by path, compared with matrix arithmetic")
    for s in range(1 if tier == "quick" else 4):
        matrices.check(db, R, s + 1)
    return R.finish("Guards, stored elements and shapes of every path are extracted from the type-checked AST, loops as transitions; the resulting closed forms are evaluated for all small shapes "
                    "(up to 3x3) with random integers as elements. Operations of elements are those of S02/S03; a matrix operation used inside another one counts as its contract.", values.ASSUME[2:], min_ok=30)
