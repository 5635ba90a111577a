"""Models of the symbolic layer for the abstract interpretation of the Python sources."""
from pyx import *

S = "pymbs.symbolics.symbolics."


def fz(I, args, st):
    return [I.freeze(a, st) for a in args]


def sym(op):
    def m(I, args, kw, st, node):
        return mk(op, *fz(I, args, st))
    return m


def ident(I, args, kw, st, node):
    return args[0]


def matrix(I, args, kw, st, node):
    r = Ref("matrix")
    a = I.freeze(args[0], st) if args else None
    st.heap[("ref", r)] = mk("matrix", a)
    return r


def equation(I, base, args, kw, st, node):
    names = ["lhs", "rhs", "varKind", "shape", "implicit"]
    d = dict(zip(names, args))
    d.update(kw)
    if "rhs" not in d:
        return NotImplemented
    rhs = I.freeze(d["rhs"], st)
    lhs = I.freeze(d["lhs"], st)
    v = mk("eqn", lhs, rhs)
    I.event("equation", node, dict(lhs=lhs, rhs=rhs, kind=d.get("varKind"), shape=d.get("shape"), implicit=d.get("implicit"), base=base), st)
    return v


def variable(I, base, args, kw, st, node):
    names = ["name", "shape", "varKind", "initialValue", "comment"]
    d = dict(zip(names, args))
    d.update(kw)
    if "name" not in d:
        return NotImplemented
    f = {k: I.freeze(v, st) for k, v in d.items()}
    v = mk("newvar", f["name"], node.lineno, I.mod().name, tuple(x.id for x in I.loopstack))
    for l in I.loopstack:
        v.free = v.free
    I.event("variable", node, dict(value=v, **f), st)
    return v


def shape(I, base, args, kw, st, node):
    if args or kw:
        return NotImplemented
    f = I.freeze(base, st) if not isinstance(base, (ClassVal, Module, Ext)) else None
    if f is None:
        return NotImplemented
    return mk("shape", f)


def simplify(I, base, args, kw, st, node):
    return base


def norm(I, base, args, kw, st, node):
    return mk("norm", I.freeze(base, st))


FUN = ["sin", "cos", "tan", "asin", "acos", "atan", "atan2", "transpose", "skew", "outer", "jacobian", "der", "solve", "element", "scalar", "inv", "sign", "If", "Less", "Greater", "Equal"]

MODELS = {S + "CMatrix": matrix, "pymbs.common.simple.simple": ident, ".addEquation": equation, ".addVariable": variable, ".shape": shape, ".simplify": simplify, ".norm": norm,
          "scalar_if_possible": ident, "vector_if_possible": ident, S + "CZeros": sym("zeros"), S + "CEye": sym("eye"), S + "CNumber": ident}
for n in FUN:
    MODELS[S + n] = sym(n)
for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "transpose", "skew", "outer", "der", "solve", "element", "scalar"):
    MODELS[n] = sym(n)


def interp(root, **kw):
    P = Program(root)
    m = dict(MODELS)
    m.update(kw.pop("models", {}))
    for k in kw.pop("unmodel", ()):
        m.pop(k, None)
    return Interp(P, m, **kw)
