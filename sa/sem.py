"""Contracts of the symbolic core (engine models) and the denotation of extracted terms.

models():   intrinsics for accessors of expression nodes; every other public factory
            (New, simplify, der, is_Zero ...) is kept opaque, i.e. used through its
            contract, and is verified in its own right by the same check.
World:      a valuation of the leaves of a term (values are matrices with a first
            derivative, i.e. dual numbers) consistent with the path facts; used to decide
            whether the closed form extracted for a path equals its specification
            (identity test of two closed forms; the analysed program is never run).
"""
import hashlib
import math
import random
import warnings

import numpy as np

import engine as EN
from engine import I, S, NULL, TRUE, FALSE, VOID, Undecided, show

warnings.simplefilter("ignore")

NS = "Symbolics::"


# ----------------------------------------------------------------------------- models
OPAQUE_LAST = ("New", "simplify", "der", "is_Zero", "is_One", "is_Int", "is_Const", "getZero", "getOne", "getMinusOne",
               "getTwo", "eye", "div", "sqrt", "pow", "toString", "tricksimplify", "newBasic", "subs", "solve", "iterateExp",
               "scanExp", "getAtoms", "getAtomsAmound", "getTrue", "getFalse", "has_Function", "changed", "addParent",
               "removeParent", "registerParent", "unregisterParent", "calcHash", "transpose", "applyFunctor", "getState", "getDerivative")

def opaque(f, e):
    n = f.split("::")[-1]
    if n in OPAQUE_LAST:
        return True
    if f.startswith("Symbolics::operator"):
        return True
    if n.startswith("operator") and f.split("::")[-2] in ("Matrix", "SymmetricMatrix", "Int", "Real", "Basic", "Shape", "Eye", "Zero", "Bool", "Mul", "Add"):
        return True
    return False


def argseq(o):
    return ("args", o)


def ensure(E, o, st):
    k = argseq(o)
    if k not in st.heap and o[0] == "obj":
        ops = st.heap.get(o, ())
        if ops and ops[0][0] == "ctor":
            cls, args = ops[0][1], ops[0][2]
            c = cls.split("::")[-1]
            if c in ("Matrix", "SymmetricMatrix"):
                return k
            if len(args) == 1 and E.is_seq(args[0]):
                st.heap[k] = E.ops(args[0], st)
            else:
                st.heap[k] = tuple(("item", a) for a in args)
    return k


def m_getArg(E, o, vs, e, st):
    v = E.deref_args(vs, st)
    i = v[0] if v else I(0)
    if is_matrix(E, o, st):
        return [(mget(E, o, (i,), st), st)]
    return [(E.seq_at(ensure(E, o, st), i, st), st)]


def m_getArgN(n):
    def m(E, o, vs, e, st):
        return [(E.seq_at(ensure(E, o, st), I(n), st), st)]
    return m


def m_nargs(E, o, vs, e, st):
    if is_matrix(E, o, st):
        return [(("numel", ("shape", E.snapshot(o, st))), st)]
    return [(E.seq_size(ensure(E, o, st), st), st)]


def m_setArg(E, o, vs, e, st):
    vs = E.deref_args(vs, st)
    if len(vs) == 1:
        vs = [I(0), vs[0]]
    ensure(E, o, st)
    E.push(argseq(o), ("set", vs[0], vs[1]), st)
    return [(VOID, st)]


def m_setArgN(n):
    def m(E, o, vs, e, st):
        vs = E.deref_args(vs, st)
        ensure(E, o, st)
        E.push(argseq(o), ("set", I(n), vs[0]), st)
        return [(VOID, st)]
    return m


def m_addArg(E, o, vs, e, st):
    vs = E.deref_args(vs, st)
    ensure(E, o, st)
    E.push(argseq(o), ("item", vs[0]), st)
    return [(VOID, st)]


def m_clearArgs(E, o, vs, e, st):
    st.heap[argseq(o)] = ()
    return [(VOID, st)]


def m_nop(E, o, vs, e, st):
    return [(VOID, st)]


def m_simplifyArgs(E, o, vs, e, st):
    k = ensure(E, o, st)
    ops = E.ops(k, st)
    out = []
    for x in ops:
        if x[0] == "item":
            out.append(("item", simp(x[1])))
        elif x == ("copy", k):
            out.append(("copy", ("simpargs", o)))
        elif x[0] == "set":
            out.append(("set", x[1], simp(x[2])))
        else:
            out.append(x)
    st.heap[k] = tuple(out)
    return [(VOID, st)]


def simp(x):
    return x if x[0] == "simp" else ("simp", x)


def m_simplify(E, o, vs, e, st):
    if o is None:
        return None
    return [(("call", "simplify", E.snapshot(o, st), ()), st)]


def m_type(E, o, vs, e, st):
    return [(("type", o), st)]


def m_shape(E, o, vs, e, st):
    key = (o, "m_shape")
    if key in st.fields:
        return [(st.fields[key], st)]
    return [(("shape", E.snapshot(o, st)), st)]


def m_ndim(E, o, vs, e, st):
    return [(("ndim", o), st)]


def m_dim(E, o, vs, e, st):
    return [(("dim", o, E.deref_args(vs, st)[0]), st)]


def m_numel(E, o, vs, e, st):
    return [(("numel", o), st)]


def m_mnumel(E, o, vs, e, st):
    return [(("numel", m_shape(E, o, vs, e, st)[0][0]), st)]


def m_identity(E, o, vs, e, st):
    v = E.deref_args(vs, st)[0]
    # cast helper: records the type it requires of its argument
    t = (e.get("targs") or [""])[0]
    if t:
        st.effects += (("asptr", v, t, e.get("l", 0)),)
    return [(v, st)]


def is_matrix(E, o, st):
    if o[0] == "obj":
        ops = st.heap.get(o, ())
        return bool(ops) and ops[0][0] == "ctor" and ops[0][1].endswith("Matrix")
    if o[0] == "this" and len(o) > 1 and o[1].endswith("Matrix"):
        return True
    mt = E.class_tags(NS + "Matrix")
    ts = E.tags_of(o, st)
    return bool(ts) and ts <= mt


def mget(E, o, idx, st):
    if o[0] == "obj":
        ops = st.heap.get(o, ())
        for x in reversed(ops):
            if x[0] == "mset":
                if x[1] == idx:
                    return x[2]
                if len(x[1]) == len(idx) and all(EN.is_const(a) and EN.is_const(b) for a, b in zip(x[1], idx)):
                    continue
                return ("mget", E.snapshot_inst(o, st), idx)
            elif x[0] == "ctor":
                if len(x[2]) == 1 and x[2][0][0] not in ("shape", "new"):
                    return mget(E, x[2][0], idx, st)
                return ("mget", E.snapshot_inst(o, st), idx)
            else:
                return ("mget", E.snapshot_inst(o, st), idx)
    if o[0] == "this":
        k = argseq(o)
        ops = st.heap.get(k)
        if ops is not None and ops != (("copy", k),):
            if len(idx) == 2:
                idx = (("op", "+", ("op", "*", idx[0], ("dim", m_shape(E, o, (), None, st)[0][0], I(2))), idx[1]),)
            return ("mget", ("seqv", ops), idx)
    return ("mget", o, idx)


def m_mget(E, o, vs, e, st):
    return [(mget(E, o, tuple(E.deref_args(vs, st)), st), st)]


def m_mset(E, o, vs, e, st):
    vs = E.deref_args(vs, st)
    E.push(o, ("mset", tuple(vs[:-1]), vs[-1]), st)
    return [(VOID, st)]


def m_massign(E, o, vs, e, st):
    v = E.deref_args(vs, st)[0]
    t = e["args"][0].get("t", "") if e["args"] else ""
    # Matrix = Matrix copies; Matrix = a, b, c ... inserts
    u = e.get("u", "")
    if "Matrix" in u.split("operator=")[-1] if "operator=" in u else False:
        st.heap[o] = (("ctor", e.get("cls") or NS + "Matrix", (E.snapshot(v, st),)),)
        return [(o, st)]
    E.push(o, ("ins", v), st)
    return [(("inserter", o), st)]


def m_minsert(E, o, vs, e, st):
    v = E.deref_args(vs, st)[0]
    if o[0] == "inserter":
        E.push(o[1], ("ins", v), st)
        return [(o, st)]
    return None


def m_minplace(op):
    def m(E, o, vs, e, st):
        v = E.deref_args(vs, st)[0]
        cur = E.snapshot_inst(o, st)
        st.heap[o] = (("ctor", NS + "Matrix", (("mop", op, cur, E.snapshot(v, st)),)),)
        return [(o, st)]
    return m


def m_mop(op):
    def m(E, o, vs, e, st):
        vs = E.deref_args(vs, st)
        if o is None and len(vs) == 1:
            return [(("mop", "neg", E.resolve(vs[0], st), None), st)]
        if o is None:
            a, b = vs
        elif not vs:
            return [(("mop", "neg", E.snapshot_inst(o, st), None), st)]
        else:
            a, b = o, vs[0]
        if a[0] in ("param", "obj", "fld", "at", "arg", "simp", "this") or True:
            return [(("mop", op, E.resolve(a, st), E.resolve(b, st)), st)]
    return m


def m_str(E, o, vs, e, st):
    return [(("str", E.deref_args(vs, st)[0]), st)]


def m_scalar(E, o, vs, e, st):
    return [(E.mkeq(("ndim", m_shape(E, o, vs, e, st)[0][0]), I(0)), st)]


def m_isdim(n):
    def m(E, o, vs, e, st):
        return [(E.mkeq(("ndim", m_shape(E, o, vs, e, st)[0][0]), I(n)), st)]
    return m


def m_shapeop(op):
    def m(E, o, vs, e, st):
        v = E.deref_args(vs, st)
        return [(("shop", op, o, v[0]), st)]
    return m


def m_shape_inplace(op):
    def m(E, o, vs, e, st):
        v = E.deref_args(vs, st)[0]
        out = []
        for l, s in E.lv(e["obj"], st):
            E.wr(l, ("shop", op, E.rd(l, s), v), s)
            out.append((o, s))
        return out
    return m


def m_shape_eq(neg):
    def m(E, o, vs, e, st):
        v = E.deref_args(vs, st)
        t = E.equal(o, v[0], st)
        return [(E.negate(t) if neg else t, st)]
    return m


def m_shape_T(E, o, vs, e, st):
    return [(("shT", o), st)]


def m_beq(neg):
    """operator==/!= on expression pointers: structural equality"""
    def m(E, o, vs, e, st):
        vs = E.deref_args(vs, st)
        a, b = (o, vs[0]) if o is not None else vs[:2]
        a, b = E.resolve(a, st), E.resolve(b, st)
        if a == NULL or b == NULL:
            t = E.equal(a, b, st)
        elif a == b:
            t = TRUE
        else:
            t = ("deq",) + tuple(sorted((a, b), key=repr))
        return [(E.negate(t) if neg else t, st)]
    return m


def m_isInt(E, o, vs, e, st):
    """Util::is_Int(e, out): true iff e is an integer number; out := its value"""
    x = E.deref_args(vs[:1], st)[0]
    out = []
    for b, s in E.decide(("truth", ("call", "Util::is_Int", None, (x,))), st):
        v = ("num", x) if b else ("out", "is_Int", x)
        if vs[1][0] == "ref":
            E.wr(vs[1][1], v, s)
        elif vs[1][0] == "addr":
            E.wr(vs[1][1], v, s)
        out.append((("bool", b), s))
    return out


def m_functor(E, o, vs, e, st):
    import re
    t = e["args"][0].get("t", "")
    m = re.search(r"(Unary|Binary|Ternary)Functor<([\w:]+)", t)
    if not m:
        return None
    f = E.deref_args(vs, st)[0]
    fargs = ()
    if f[0] == "obj":
        ops = st.heap.get(f, ())
        if ops and ops[0][0] == "ctor":
            fargs = E.resolve(ops[0][2], st)
    elif f[0] == "new":
        fargs = f[2]
    return [(("ewise", m.group(2).split("::")[-1], E.snapshot_inst(o, st), fargs), st)]


def f_value(E, base, st):
    return ("num", base)


def models():
    m = {
        NS + "UnaryOp::getArg": m_getArg, NS + "NaryOp::getArg": m_getArg, NS + "BinaryOp::getArg": m_getArg,
        NS + "Basic::getArg": m_getArg, NS + "List::getArg": m_getArg,
        NS + "BinaryOp::getArg1": m_getArgN(0), NS + "BinaryOp::getArg2": m_getArgN(1),
        "*::getArgsSize": m_nargs,
        NS + "UnaryOp::setArg": m_setArg, NS + "NaryOp::setArg": m_setArg, NS + "BinaryOp::setArg": m_setArg,
        NS + "BinaryOp::setArg1": m_setArgN(0), NS + "BinaryOp::setArg2": m_setArgN(1),
        NS + "NaryOp::addArg": m_addArg, NS + "NaryOp::clearArgs": m_clearArgs, NS + "NaryOp::reserveArgs": m_nop,
        NS + "UnaryOp::simplifyArg": m_simplifyArgs, NS + "BinaryOp::simplifyArgs": m_simplifyArgs,
        NS + "NaryOp::simplifyArgs": m_simplifyArgs, NS + "UnaryOp::simplifyArgs": m_simplifyArgs,
        NS + "Basic::getType": m_type, NS + "Basic::getShape": m_shape,
        NS + "Basic::is_Scalar": m_scalar, NS + "Basic::is_Vector": m_isdim(1), NS + "Basic::is_Matrix": m_isdim(2),
        NS + "Shape::getNrDimensions": m_ndim, NS + "Shape::getDimension": m_dim, NS + "Shape::getNumEl": m_numel,
        NS + "Shape::transpose": m_shape_T,
        NS + "Shape::operator==": m_shape_eq(False), NS + "Shape::operator!=": m_shape_eq(True),
        NS + "Shape::operator+": m_shapeop("+"), NS + "Shape::operator*": m_shapeop("*"),
        NS + "Shape::operator+=": m_shape_inplace("+"), NS + "Shape::operator*=": m_shape_inplace("*"),
        NS + "Matrix::getNumEl": m_mnumel, NS + "SymmetricMatrix::getNumEl": m_mnumel,
        NS + "Util::getAsConstPtr": m_identity,
        NS + "Util::is_Int": m_isInt,
        NS + "Matrix::get": m_mget, NS + "Matrix::operator()": m_mget, NS + "Matrix::set": m_mset,
        NS + "SymmetricMatrix::get": m_mget, NS + "SymmetricMatrix::set": m_mset,
        NS + "Matrix::operator=": m_massign, NS + "SymmetricMatrix::operator=": m_massign,
        NS + "Matrix::Inserter::operator,": m_minsert, NS + "SymmetricMatrix::Inserter::operator,": m_minsert,
        NS + "Matrix::operator+=": m_minplace("+"), NS + "Matrix::operator-=": m_minplace("-"),
        NS + "Matrix::operator*=": m_minplace("*"), NS + "Matrix::operator/=": m_minplace("/"),
        NS + "operator==": m_beq(False), NS + "operator!=": m_beq(True),
        NS + "Basic::operator==": m_beq(False), NS + "Basic::operator!=": m_beq(True),
        "*::operator==": m_beq(False), "*::operator!=": m_beq(True),
        "boost::operator==": m_beq(False), "boost::operator!=": m_beq(True),
        "*::applyFunctor": m_functor,
        "str": m_str,
        "field:m_value": f_value,
        "*::simplify": m_simplify,
    }
    for op in "+-*/":
        for c in ("Matrix", "SymmetricMatrix", "Int", "Real"):
            m[NS + c + "::operator" + op] = m_mop(op)
        m[NS + "operator" + op] = m_mop(op)
    return m


# ----------------------------------------------------------------------------- values
class Unknown(Exception):
    """term outside the modelled fragment"""


class Skip(Exception):
    """operation undefined at this valuation"""


class V:
    __slots__ = ("v", "d")

    def __init__(self, v, d=None):
        self.v = np.atleast_2d(np.asarray(v, dtype=complex)) if not isinstance(v, np.ndarray) else v
        self.d = np.zeros_like(self.v) if d is None else d

    @property
    def shape(self):
        return self.v.shape

    def scalar(self):
        return self.v.shape == (1, 1)


def const(x):
    return V(np.array([[complex(x)]]))


def ndim(sh):
    return 0 if sh == (1, 1) else 1 if 1 in sh else 2


def same(a, b):
    if a.shape != b.shape:
        return False
    sc = 1e-7 * (1 + max(np.abs(a.v).max(), np.abs(b.v).max()))
    return bool(np.all(np.abs(a.v - b.v) <= sc))


def add2(a, b):
    if a.scalar() and not b.scalar():
        a, b = b, a
    if a.shape != b.shape and not b.scalar():
        raise Skip("shape")
    return V(a.v + b.v, a.d + b.d)


def neg(a):
    return V(-a.v, -a.d)


def mul2(a, b):
    if a.scalar() or b.scalar():
        return V(a.v * b.v, a.d * b.v + a.v * b.d)
    if a.shape[1] != b.shape[0]:
        raise Skip("shape")
    return V(a.v @ b.v, a.d @ b.v + a.v @ b.d)


def addn(xs):
    if not xs:
        raise Unknown("empty sum")
    r = xs[0]
    for x in xs[1:]:
        r = add2(r, x)
    return r


def muln(xs):
    if not xs:
        raise Unknown("empty product")
    r = xs[0]
    for x in xs[1:]:
        r = mul2(r, x)
    return r


def inv(a):
    if a.shape[0] != a.shape[1]:
        raise Skip("shape")
    try:
        i = np.linalg.inv(a.v)
    except np.linalg.LinAlgError:
        raise Skip("singular")
    if not np.all(np.isfinite(i)) or np.abs(i).max() > 1e6:
        raise Skip("singular")
    return V(i, -i @ a.d @ i)


def powv(a, e):
    if not e.scalar():
        raise Skip("exponent")
    n = e.v[0, 0]
    if a.scalar():
        x = a.v[0, 0]
        if abs(n.imag) > 1e-12:
            raise Skip("complex exponent")
        n = n.real
        if x == 0 and n <= 0:
            raise Skip("0**neg")
        if x.imag == 0 and x.real < 0 and abs(n - round(n)) > 1e-12:
            raise Skip("negative base")
        if abs(x.imag) > 1e-12:
            raise Skip("complex")
        r = x ** n
        if x == 0:
            d = a.d * (1.0 if n == 1 else 0.0)
        else:
            d = n * x ** (n - 1) * a.d + (r * np.log(abs(x)) if x.real > 0 else 0) * e.d
        if x.real <= 0 and abs(e.d[0, 0]) > 0:
            raise Skip("log")
        return V(np.array([[r]]), d)
    if a.shape[0] != a.shape[1]:
        raise Skip("shape")
    if abs(n - round(n.real)) > 1e-12:
        raise Skip("matrix root")
    k = int(round(n.real))
    if k == 0:
        raise Skip("A**0 is the scalar one by convention")
    if k < 0:
        a = inv(a)
        k = -k
    r = V(np.eye(a.shape[0], dtype=complex))
    for _ in range(k):
        r = mul2(r, a)
    return r


def ew(f, df, dom=None):
    def g(a):
        x = a.v
        if np.abs(x.imag).max() > 1e-12:
            raise Skip("complex")
        if dom is not None and not np.all(dom(x.real)):
            raise Skip("domain")
        with np.errstate(all="ignore"):
            v = f(x.real).astype(complex)
            d = df(x.real) * a.d
        if not (np.all(np.isfinite(v)) and np.all(np.isfinite(d))):
            raise Skip("not finite")
        return V(v, d)
    return g


def skew(a):
    if a.v.size != 3:
        raise Skip("shape")

    def sk(x):
        x = x.reshape(-1)
        return np.array([[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]], dtype=complex)
    return V(sk(a.v), sk(a.d))


def transpose(a):
    return V(a.v.T.copy(), a.d.T.copy())


def scalarv(a):
    if a.v.size != 1:
        raise Skip("shape")
    return V(a.v.reshape(1, 1), a.d.reshape(1, 1))


def outer(a, b):
    if ndim(a.shape) != 1 or ndim(b.shape) != 1:
        raise Skip("shape")
    f = lambda x, y: np.outer(x.reshape(-1), y.reshape(-1))
    return V(f(a.v, b.v), f(a.d, b.v) + f(a.v, b.d))


def atan2v(a, b):
    if not (a.scalar() and b.scalar()):
        raise Skip("shape")
    y, x = a.v[0, 0].real, b.v[0, 0].real
    if x == 0 and y == 0:
        return V(np.array([[complex(math.atan2(y, x))]]))
    d = (x * a.d - y * b.d) / (x * x + y * y)
    return V(np.array([[complex(math.atan2(y, x))]]), d)


def rel(f):
    def g(a, b):
        if not (a.scalar() and b.scalar()):
            raise Skip("shape")
        return const(1.0 if f(a.v[0, 0].real, b.v[0, 0].real) else 0.0)
    return g


def ifv(c, a, b):
    if not c.scalar():
        raise Skip("shape")
    x = c.v[0, 0].real
    if x not in (0.0, 1.0):
        raise Skip("condition")
    return a if x else b


def elem(a, i, j):
    if not (0 <= i < a.shape[0] and 0 <= j < a.shape[1]):
        raise Skip("index")
    return V(a.v[i:i + 1, j:j + 1].copy(), a.d[i:i + 1, j:j + 1].copy())


def elem1(a, i):
    r, c = divmod(i, a.shape[1])
    return elem(a, r, c)


def solvev(a, b):
    if a.shape[0] != a.shape[1] or b.shape != (a.shape[0], 1):
        raise Skip("shape")
    return mul2(inv(a), b)


UN = {
    "Neg": neg, "Sin": ew(np.sin, np.cos), "Cos": ew(np.cos, lambda x: -np.sin(x)),
    "Tan": ew(np.tan, lambda x: 1 / np.cos(x) ** 2, lambda x: np.abs(np.cos(x)) > 1e-2),
    "Asin": ew(np.arcsin, lambda x: 1 / np.sqrt(1 - x * x) if np.all(np.abs(x) < 1) else np.zeros_like(x), lambda x: np.abs(x) <= 1),
    "Acos": ew(np.arccos, lambda x: -1 / np.sqrt(1 - x * x) if np.all(np.abs(x) < 1) else np.zeros_like(x), lambda x: np.abs(x) <= 1),
    "Atan": ew(np.arctan, lambda x: 1 / (1 + x * x)),
    "Abs": ew(np.abs, np.sign), "Sign": ew(np.sign, lambda x: np.zeros_like(x)),
    "Transpose": transpose, "Skew": skew, "Scalar": scalarv, "Inverse": inv,
}
BI = {
    "Pow": powv, "Atan2": atan2v, "Outer": outer, "Less": rel(lambda a, b: a < b), "Greater": rel(lambda a, b: a > b),
    "Equal": rel(lambda a, b: a == b), "Solve": solvev,
}
ELEMENTWISE = ("Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Abs", "Sign", "Atan2")
NARY = {"Add": addn, "Mul": muln}
C_FUNCS = {"sin": "Sin", "cos": "Cos", "tan": "Tan", "asin": "Asin", "acos": "Acos", "atan": "Atan", "fabs": "Abs", "abs": "Abs"}

SHAPES = [(1, 1), (3, 1), (3, 3), (1, 3), (2, 3), (3, 2)]

# contract of Util::is_Zero / is_One: they hold only for nodes of these types
ZERO_TAGS = ("Zero", "Int", "Real", "Matrix", "SymmetricMatrix", "Neg")
ONE_TAGS = ("Int", "Real", "Matrix", "SymmetricMatrix", "Neg", "Eye")
SCALAR_TAGS = ("Int", "Real", "Bool", "Less", "Greater", "Equal", "Element", "Scalar", "Atan2", "Sign")


def h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


class World:
    """valuation number n consistent with the facts of state st"""

    def __init__(self, E, st, n, guards=(), scalars=False, force=None, shapes=None, arity=None, smallints=False):
        self.E = E
        self.st = st
        self.n = n
        self.rng = random.Random(n)
        self.memo = {}
        self.shape_pref = shapes or {}
        self.scalars = scalars
        self.force = force or {}
        self.arity = arity or {}
        self.idx = {}
        self.busy = set()
        self.uninterp = []
        self.intset = set()
        self.expset = set()
        self.ew = False
        self.partial = False
        self.operand = None
        self.hints = {}
        # forced values from equality facts
        self.alias = {}
        self.zero = set()
        self.one = set()
        self.rank = {}
        for a, b in st.eqs.items():
            if not b:
                continue
            if a[0] == "truth" and a[1][0] == "call" and len(a[1][3]) == 1:
                if a[1][1] == "Util::is_Zero":
                    self.zero.add(self.canon(a[1][3][0]))
                elif a[1][1] == "Util::is_One":
                    self.one.add(self.canon(a[1][3][0]))
            if a[0] == "deq":
                x, y = a[1], a[2]
                if self.leafish(x):
                    self.alias[self.canon(x)] = y
                elif self.leafish(y):
                    self.alias[self.canon(y)] = x
        for a, b in guards:
            if a[0] == "eq" and b:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == "ndim" and y[0] == "int" and x[1][0] == "shape":
                        self.hints.setdefault(self.canon(x[1][1]), set()).add(("nd", y[1]))
                    if x[0] == "dim" and y[0] == "int" and x[1][0] == "shape" and x[2][0] == "int":
                        self.hints.setdefault(self.canon(x[1][1]), set()).add(("dim", x[2][1], y[1]))
        for c in list(self.zero):
            if self.tagname(c) == "Neg":
                self.zero.add(self.canon(("arg", c, I(0))))
        self.minus = set()
        for c in list(self.one):
            if self.tagname(c) == "Neg":
                self.one.discard(c)
                self.minus.add(self.canon(("arg", c, I(0))))
            elif c[0] == "call" and c[1] == "Neg::New" and len(c[3]) == 1:
                self.one.discard(c)
                self.minus.add(self.canon(c[3][0]))

    def infeasible(self):
        """type facts contradict the contract of is_Zero / is_One"""
        for s, names in ((self.zero, ZERO_TAGS), (self.one, ONE_TAGS)):
            ok = set(v for n, v in self.E.tags.items() if n[5:] in names)
            for c in s:
                if not (self.tags(c) & ok):
                    return True
        return False

    def leafish(self, t):
        return t[0] in ("arg", "simp", "param", "at", "sym", "mget")

    # -- leaves
    def canon(self, t):
        if t[0] == "simp":
            return self.canon(t[1])
        if t[0] == "call" and t[1] in ("simplify",) and t[2] is not None:
            return self.canon(t[2])
        if t[0] == "arg":
            i = t[2]
            if i[0] == "op" and not EN.contains(i, lambda x: x[0:1] in (("idx",), ("phi",))):
                try:
                    i = I(self.num_int(i))
                except (Unknown, Skip):
                    pass
            return ("arg", self.canon(t[1]), i)
        if t[0] == "at" and t[1][0] in ("args", "simpargs"):
            return ("arg", self.canon(t[1][1]), t[2])
        return t

    def tags(self, t):
        E, st = self.E, self.st
        c = self.canon(t)
        best = E.alltags
        for k, ts in st.types.items():
            if self.canon(k) == c:
                best = best & ts
        if t[0] in ("obj", "new", "this"):
            best = best & E.tags_of(t, st)
        if t[0] == "this" and len(t) > 1:
            ts = E.class_tags(t[1])
            if ts:
                best = best & ts
        return best

    def tagname(self, t):
        ts = self.tags(t)
        if len(ts) != 1:
            return None
        v = next(iter(ts))
        for n, x in self.E.tags.items():
            if x == v:
                return n[5:]
        return None

    def nargs(self, t):
        tn = self.tagname(t)
        if tn in UN or tn in ("Der",):
            return 1
        if tn in BI:
            return 2
        if tn in ("If",):
            return 3
        if tn == "Element":
            # (expression, row, column); rules on values look at the expression only
            return 3 if self.operand is not None else 1
        if tn == "Jacobian":
            return 2
        if tn in ("Matrix", "SymmetricMatrix") and self.operand is not None:
            return self.val(t).v.size
        c = self.canon(t)
        if c in self.arity:
            return self.arity[c]
        return random.Random(h("n", self.n, c)).choice((1, 2, 2, 3, 3, 4))

    def leaf_shape(self, c):
        if self.scalars:
            return (1, 1)
        if c in self.shape_pref:
            return self.shape_pref[c]
        tn = self.tagname(c)
        if tn in SCALAR_TAGS:
            return (1, 1)
        r = random.Random(h("s", self.n // 3, c))
        hs = self.hints.get(c)
        if hs or (tn in ("Matrix", "Eye") and self.n % 6 == 0):
            hs = hs or set()
            ss = [x for x in SHAPES + [(1, 1), (3, 1), (3, 3), (2, 2), (2, 1), (1, 2)] if all(ndim(x) == y[1] if y[0] == "nd" else (x + (1,))[y[1] - 1] == y[2] for y in hs)]
            ss = [x for x in ss if not (tn == "Matrix" and x == (1, 1))] or ss
            ss = [x for x in ss if not (tn == "Eye" and x[0] != x[1])] or ss
            if ss:
                return r.choice(ss)
        # most worlds use mutually compatible square matrices / scalars
        mode = self.n % 6
        if mode == 0:
            return (1, 1)
        if mode == 1:
            return r.choice([(1, 1), (3, 3)])
        if mode == 2:
            return r.choice([(1, 1), (3, 1)])
        if mode == 3:
            return (3, 1)
        if mode == 4:
            return (3, 3)
        return r.choice(SHAPES)

    def leaf(self, c):
        sh = self.leaf_shape(c)
        r = np.random.RandomState(h("v", self.n, c) % (2 ** 32))
        if c in self.intset:
            return const(r.randint(0, 3))
        if c[0] == "arg" and c[2] == I(1) and self.tagname(c[1]) == "Pow":
            # exponents: the interesting cases are integers and roots
            return const(r.choice([2, 2, 3, -1, -2, 0.5, 1, 0, r.uniform(-2, 2)]))
        if c in self.expset:
            return const(r.choice([2, 2, 3, -1, -2, 0.5, 1, 0, r.uniform(-2, 2)]))
        if sh == (1, 1) and r.rand() < 0.35:
            v = np.array([[complex(r.choice([-2, -1, 0, 1, 2, 0.5]))]])
        else:
            v = (r.uniform(-2, 2, sh)).astype(complex)
            if sh == (1, 1) and r.rand() < 0.5:
                v = v / 2.2
        d = r.uniform(-1, 1, sh).astype(complex)
        return V(v, d)

    def idxmap(self):
        """current values of the loop indices, under all their names"""
        m = {}
        for k, v in self.idx.items():
            m[("idx", k)] = I(v)
            L = self.E.loops[k]
            for kid in set(x for tr in L.trans for x in tr[1]):
                if L.trans and all(tr[1].get(kid) in (("op", "+", ("idx", k), I(1)), ("op", "+", I(1), ("idx", k))) for tr in L.trans):
                    m[("phi", k, kid)] = I(v)
        return m

    def val(self, t):
        if self.idx:
            t = EN.subst(t, self.idxmap())
        c = self.canon(t)
        if c in self.memo:
            r = self.memo[c]
            if isinstance(r, Exception):
                raise r
            return r
        if c in self.busy:
            raise Unknown("cyclic facts")
        self.busy.add(c)
        try:
            r = self.val0(c)
            if not (np.all(np.isfinite(r.v))):
                raise Skip("not finite")
            if np.abs(r.v).max() > 1e8:
                raise Skip("too large")
        except (Unknown, Skip) as e:
            self.memo[c] = e
            raise
        finally:
            self.busy.discard(c)
        self.memo[c] = r
        return r

    def val0(self, t):
        k = t[0]
        if t in self.force:
            return self.force[t]
        if t in self.zero:
            sh = self.leaf_shape(t)
            return V(np.zeros(sh, dtype=complex), np.zeros(sh, dtype=complex))
        if t in self.one:
            sh = self.leaf_shape(t)
            if sh[0] != sh[1]:
                raise Skip("one")
            return V(np.eye(sh[0], dtype=complex))
        if k in ("eq", "lt", "not", "and", "or", "truth", "deq"):
            return const(1.0 if self.truth(t) else 0.0)
        if t in self.minus:
            sh = self.leaf_shape(t)
            if sh[0] != sh[1]:
                raise Skip("one")
            return V(-np.eye(sh[0], dtype=complex))
        if t in self.alias and self.canon(self.alias[t]) != t:
            return self.val(self.alias[t])
        k = t[0]
        if k in ("this", "param", "arg", "sym", "at", "phi", "fld", "mget", "elt"):
            if k == "mget":
                return self.matget(t)
            tn = self.tagname(t)
            if tn is not None:
                return self.by_tag(tn, t)
            if k == "at":
                s = t[1]
                if s[0] in ("seqv", "cat") :
                    xs = self.seq(s)
                    i = self.num_int(t[2])
                    if not 0 <= i < len(xs):
                        raise Skip("index")
                    return xs[i]
            if k == "fld" and t[2] in ("m_row", "m_col"):
                return const(random.Random(h("ix", self.n, t)).randint(0, 2))
            return self.leaf(t)
        if k in ("int", "real"):
            return const(t[1])
        if k == "bool":
            return const(1.0 if t[1] else 0.0)
        if k == "num":
            return self.val(t[1])
        if k == "new" or k == "inst":
            return self.by_class(t)
        if k == "obj":
            ops = self.st.heap.get(t)
            if ops and ops[0][0] == "ctor":
                return self.by_class(self.E.resolve(t, self.st))
            raise Unknown("object")
        if k == "mop":
            return self.mop(t)
        if k == "ewise":
            return self.elementwise(t[1], self.val(t[2]), [self.val(x) for x in t[3]])
        if k == "neg":
            return neg(self.val(t[1]))
        if k == "op":
            return self.arith(t)
        if k == "trunc":
            v = self.val(t[1])
            return const(math.trunc(v.v[0, 0].real))
        if k == "call":
            return self.call(t)
        if k == "out" and t[1] == "is_Int":
            raise Unknown("is_Int out")
        if k == "loopval":
            return self.loopval(t)
        if k == "seqv" and t[1] and t[1][0][0] == "ctor":
            return self.by_class(("inst", t[1][0][1], t[1][0][2], t[1][1:]))
        if k in ("ndim", "dim", "numel", "size", "nargs"):
            return const(self.shape_num(t))
        if k == "idx":
            if t[1] in self.idx:
                return const(self.idx[t[1]])
        raise Unknown(k)

    def truth(self, t):
        k = t[0]
        if k == "bool":
            return t[1]
        if k == "not":
            return not self.truth(t[1])
        if k == "and":
            return all(self.truth(x) for x in t[1:])
        if k == "or":
            return any(self.truth(x) for x in t[1:])
        g = self.guard0(t)
        if g is None:
            raise Unknown(k)
        return g

    def num_int(self, t):
        if t[0] == "int":
            return t[1]
        v = self.val(t)
        if not v.scalar():
            raise Skip("index")
        return int(round(v.v[0, 0].real))

    def arith(self, t):
        a, b = self.val(t[2]), self.val(t[3])
        op = t[1]
        if op == "+":
            return add2(a, b)
        if op == "-":
            return add2(a, neg(b))
        if op == "*":
            return mul2(a, b)
        if op == "/":
            if not b.scalar() or b.v[0, 0] == 0:
                raise Skip("div")
            return mul2(a, V(1 / b.v, -b.d / b.v ** 2))
        if op in ("%", "/i"):
            x, y = a.v[0, 0].real, b.v[0, 0].real
            if y == 0:
                raise Skip("div")
            return const(math.fmod(x, y) if op == "%" else int(x / y))
        raise Unknown("op " + op)

    def mop(self, t):
        op = t[1]
        a = self.val(t[2])
        if op == "neg":
            return neg(a)
        b = self.val(t[3])
        if op == "+":
            return add2(a, b)
        if op == "-":
            return add2(a, neg(b))
        if op == "*":
            return mul2(a, b)
        if op == "/":
            return mul2(a, powv(b, const(-1)))
        raise Unknown(op)

    # -- expression nodes known only by their type
    def by_tag(self, tn, t):
        A = lambda i: self.val(("arg", t, I(i)))
        if tn in UN:
            return UN[tn](A(0))
        if tn in BI:
            x, y = A(0), A(1)
            if tn == "Pow" and self.ew and not x.scalar():
                raise Skip("element-wise function of a matrix power")
            return BI[tn](x, y)
        if tn == "If":
            return ifv(A(0), A(1), A(2))
        if tn in NARY:
            n = self.nargs(t)
            return NARY[tn]([A(i) for i in range(n)])
        if tn == "Zero":
            sh = self.leaf_shape(t)
            return V(np.zeros(sh, dtype=complex))
        if tn == "Eye":
            sh = self.leaf_shape(t)
            if sh[0] != sh[1]:
                raise Skip("eye")
            return V(np.eye(sh[0], dtype=complex))
        if tn in ("Int", "Real"):
            r = random.Random(h("i", self.n, t))
            return const(r.choice([-3, -2, -1, 0, 1, 2, 3]) if tn == "Int" else r.choice([-1.5, -1.0, 0.0, 1.0, 2.0, 0.5, r.uniform(-2, 2), r.uniform(-1, 1)]))
        if tn == "Bool":
            return const(random.Random(h("i", self.n, t)).choice([0, 1]))
        if tn == "Element":
            i = self.num_int(("fld", t, "m_row"))
            j = self.num_int(("fld", t, "m_col"))
            return elem(A(0), i, j)
        if tn == "Matrix":
            return self.leaf(t)
        if tn == "Der":
            a = A(0)
            return V(a.d, np.random.RandomState(h("dd", self.n, t) % 2 ** 32).uniform(-1, 1, a.shape).astype(complex))
        return self.leaf(t)

    def matget(self, t):
        m = self.val(t[1])
        idx = [self.num_int(i) for i in t[2]]
        if len(idx) == 1:
            if not 0 <= idx[0] < m.v.size:
                raise Skip("index")
            return elem1(m, idx[0])
        return elem(m, idx[0], idx[1])

    def args_of(self, args):
        return [self.val(a) for a in args]

    def is_seqterm(self, a):
        return a[0] in ("seqv", "args", "simpargs", "cat") or (a[0] in ("param", "sym") and a in self.seqparams())

    def seqparams(self):
        return getattr(self, "_seqparams", ())

    def node(self, c, args):
        if c in NARY:
            if len(args) == 1:
                return NARY[c](self.seq(args[0]))
            return NARY[c](self.args_of(args))
        if c in UN or c in BI or c in ("If", "Element", "Der"):
            if len(args) == 1 and self.is_seqterm(args[0]):
                vals = self.seq(args[0])
            elif c == "Element":
                vals = [self.val(args[0])]
            else:
                vals = self.args_of(args)
            if c in UN:
                if len(vals) != 1:
                    raise Unknown(c)
                return UN[c](vals[0])
            if c in BI:
                if len(vals) != 2:
                    raise Unknown(c)
                return BI[c](*vals)
            if c == "If":
                return ifv(*vals)
            if c == "Der":
                return self.other_der(args, vals[0]) if self.partial else V(vals[0].d)
            if c == "Element":
                if len(args) == 1 and len(vals) == 3:
                    ij = [x.v[0, 0].real for x in vals[1:]]
                    if any(x != int(x) for x in ij):
                        raise Skip("index")
                    return elem(vals[0], int(ij[0]), int(ij[1]))
                if len(args) == 2:
                    return elem1(vals[0], self.num_int(args[1]))
                return elem(vals[0], self.num_int(args[1]), self.num_int(args[2]))
        raise Unknown(c)

    def by_class(self, t):
        c = t[1].split("::")[-1]
        args = t[2]
        ops = t[3] if t[0] == "inst" else ()
        ops = tuple(o for o in ops if o[0] != "m")
        if c in ("Matrix", "SymmetricMatrix"):
            return self.matrix(c, args, ops)
        if ops:
            raise Unknown("mutated " + c)
        if c in ("Int", "Real", "Bool"):
            v = self.val(args[0]) if args else const(0)
            return v
        if c == "Zero":
            sh = self.shape(args[0]) if args else (1, 1)
            return V(np.zeros(sh, dtype=complex))
        if c == "Eye":
            sh = self.shape(args[0]) if args else (1, 1)
            if sh[0] != sh[1]:
                raise Skip("eye")
            return V(np.eye(sh[0], dtype=complex))
        return self.node(c, args)

    def matrix(self, c, args, ops):
        if c == "SymmetricMatrix":
            raise Unknown("symmetric")
        if len(args) >= 1 and self.is_shape(args[0]):
            sh = self.shape(args[0])
            base = V(np.zeros(sh, dtype=complex))
        elif len(args) == 2 and self.is_shape(args[1]):
            sh = self.shape(args[1])
            xs = self.seq(args[0])
            if len(xs) != sh[0] * sh[1]:
                raise Skip("size")
            base = V(np.array([x.v[0, 0] for x in xs]).reshape(sh), np.array([x.d[0, 0] for x in xs]).reshape(sh))
        elif len(args) == 1:
            base = self.val(args[0])
        else:
            raise Unknown("matrix ctor")
        v, d = base.v.copy(), base.d.copy()
        n = 0
        for o in ops:
            if o[0] == "ins":
                x = self.val(o[1])
                if not x.scalar():
                    raise Skip("element shape")
                if n >= v.size:
                    raise Skip("too many elements")
                v.reshape(-1)[n] = x.v[0, 0]
                d.reshape(-1)[n] = x.d[0, 0]
                n += 1
            elif o[0] == "mset":
                self.mset(v, d, o)
            elif o[0] == "map":
                self.mapset(v, d, o)
            elif o[0] == "loopseq":
                r = self.matpower(V(v, d), o)
                v, d = r.v.copy(), r.d.copy()
            else:
                raise Unknown("matrix op " + o[0])
        if n and n != v.size:
            raise Skip("elements missing")
        return V(v, d)

    def mset(self, v, d, o):
        x = self.val(o[2])
        if not x.scalar():
            raise Skip("element shape")
        idx = [self.num_int(i) for i in o[1]]
        if len(idx) == 1:
            if not 0 <= idx[0] < v.size:
                raise Skip("index")
            r, c = divmod(idx[0], v.shape[1])
        else:
            r, c = idx
        if not (0 <= r < v.shape[0] and 0 <= c < v.shape[1]):
            raise Skip("index")
        v[r, c] = x.v[0, 0]
        d[r, c] = x.d[0, 0]

    def comp_range(self, L):
        dom = L.domain
        if not dom or L.extra:
            raise Unknown("loop domain")
        a, b = self.num_int(dom["start"]), self.num_int(dom["stop"])
        return range(a, b, dom["step"])

    def mapset(self, v, d, o):
        """element-wise fill: the comprehension {m(i) := f(i) | i in domain}"""
        L = self.E.loops[o[1]]
        prev = ("prev", o[1], o[2])
        self.force[("seqv", (prev,))] = V(v, d)
        for i in self.comp_range(L):
            self.idx[L.id] = i
            w = self.at_index(L)
            tr = w.pick(L)
            new = tr[1][o[2]]
            if not new or new[0] != prev:
                raise Unknown("loop update")
            for x in new[1:]:
                if x[0] == "mset":
                    x = (x[0], x[1], self.unprev(x[2], v, d, prev))
                    w.mset(v, d, x)
                elif x[0] == "map":
                    w.mapset(v, d, x)
                else:
                    raise Unknown("loop op " + x[0])
        self.idx.pop(L.id, None)

    def matpower(self, init, o):
        """recurrence m := f(m, i) over the iteration domain, folded in order"""
        L = self.E.loops[o[1]]
        pv = ("prev", o[1], o[2])
        prev = ("seqv", (pv,))
        r = init
        rng = self.comp_range(L)
        if len(rng) > 8:
            raise Unknown("matrix loop")
        for i in rng:
            self.idx[L.id] = i
            w = self.at_index(L)
            w.force = dict(w.force)
            w.force[prev] = r
            w.memo = {k: x for k, x in w.memo.items() if not EN.contains(k, lambda y: y == pv)}
            new = w.pick(L)[1][o[2]]
            if new and new[0] == pv:
                r = w.matrix("Matrix", (prev,), new[1:])
            elif new and new[0][0] == "ctor":
                r = w.by_class(("inst", new[0][1], new[0][2], new[1:]))
            else:
                raise Unknown("matrix loop")
        self.idx.pop(L.id, None)
        return r

    def unprev(self, t, v, d, prev):
        """reads of the matrix being filled inside its own comprehension"""
        if EN.contains(t, lambda x: x == prev):
            key = ("sym", "prevmat%d" % len(self.memo))

            def rep(x):
                if isinstance(x, tuple):
                    if len(x) >= 2 and x[0] == "mget" and EN.contains(x[1], lambda y: y == prev):
                        return ("mget", key, x[2])
                    return tuple(rep(y) for y in x)
                return x
            t = rep(t)
            if EN.contains(t, lambda x: x == prev):
                raise Unknown("accumulating loop")
            self.force[key] = V(v.copy(), d.copy())
            self.memo.pop(key, None)
        return t

    def at_index(self, L):
        w = self.__class__.__new__(self.__class__)
        w.__dict__.update(self.__dict__)
        # values that depend on the index must not be shared
        w.memo = {k: x for k, x in self.memo.items() if not EN.contains(k, lambda y: y == ("idx", L.id) or y[0:2] == ("phi", L.id) or y[0:1] == ("map",))}
        w.busy = set()
        return w

    def pick(self, L):
        """the transition whose guards hold at this index"""
        live = []
        for tr in L.trans:
            ok = True
            for a, b in tr[0]:
                g = self.guard(a)
                if g is None:
                    raise Unknown("loop guard " + show(a)[:80])
                if g != b:
                    ok = False
                    break
            if ok:
                live.append(tr)
        if len(live) != 1:
            raise Unknown("loop branches")
        if live[0][3] is not None:
            raise Unknown("loop exit")
        return live[0]

    def seq(self, t):
        """list of values denoted by a sequence term"""
        if self.idx:
            t = EN.subst(t, self.idxmap())
        k = t[0]
        if k == "fld" and t[2] == "m_args":
            t, k = ("args", t[1]), "args"
        if k in ("args", "simpargs"):
            n = self.nargs(t[1])
            return [self.val(("arg", t[1], I(i))) for i in range(n)]
        if k in ("param", "sym"):
            n = self.arity.get(t, random.Random(h("n", self.n, t)).choice((1, 2, 3)))
            return [self.val(("at", t, I(i))) for i in range(n)]
        if k == "obj":
            return self.seq_ops(self.st.heap[t])
        if k == "seqv":
            return self.seq_ops(t[1])
        if k == "at":
            raise Unknown("nested sequence")
        raise Unknown("sequence " + k)

    def seq_ops(self, ops):
        out = []
        for o in ops:
            if o[0] == "item":
                out.append(self.val(o[1]))
            elif o[0] == "front":
                out.insert(0, self.val(o[1]))
            elif o[0] == "copy":
                out += self.seq(o[1])
            elif o[0] == "reserve":
                pass
            elif o[0] == "insat":
                out.insert(self.num_int(o[1]), self.val(o[2]))
            elif o[0] in ("set", "put"):
                i = self.num_int(o[1])
                if not 0 <= i < len(out):
                    raise Skip("index")
                out[i] = self.val(o[2])
            elif o[0] == "fill":
                n = self.num_int(o[1])
                out += [None] * n
            elif o[0] == "map":
                L = self.E.loops[o[1]]
                prev = ("prev", o[1], o[2])
                for i in self.comp_range(L):
                    self.idx[L.id] = i
                    w = self.at_index(L)
                    tr = w.pick(L)
                    new = tr[1][o[2]]
                    if not new or new[0] != prev:
                        raise Unknown("loop update")
                    out += w.seq_ops(new[1:])
                self.idx.pop(L.id, None)
            else:
                raise Unknown("sequence op " + o[0])
        return out

    def loopval(self, t):
        """recognised recurrence x := x * c  (c loop-invariant)"""
        L = self.E.loops[t[1]]
        for key, (init, phi) in L.phis.items():
            if L.kid[key] != t[2]:
                continue
            if len(L.trans) != 1:
                raise Unknown("loop value")
            new = L.trans[0][1][t[2]]
            n = len(self.comp_range(L))
            for kind in ("*", "+"):
                if new[0] in ("op", "mop") and new[1] == kind and new[2] == phi and not EN.contains(new[3], lambda x: x[0:1] == ("phi",)):
                    r, c = self.val(init), self.val(new[3])
                    for _ in range(n):
                        r = mul2(r, c) if kind == "*" else add2(r, c)
                    return r
        raise Unknown("loop value")

    # -- shapes
    def is_shape(self, t):
        if t[0] in ("shape", "shop", "shT"):
            return True
        if t[0] == "fld" and t[2] == "m_shape":
            return True
        return t[0] == "new" and t[1].endswith("Shape")

    def shape(self, t):
        k = t[0]
        if k == "shape":
            return self.val(t[1]).shape
        if k == "fld" and t[2] == "m_shape":
            return self.val(t[1]).shape
        if k == "shT":
            a = self.shape(t[1])
            return (a[1], a[0])
        if k == "shop":
            a, b = self.shape(t[2]), self.shape(t[3])
            z = lambda s: V(np.ones(s, dtype=complex))
            return (add2 if t[1] == "+" else mul2)(z(a), z(b)).shape
        if k == "new" and t[1].endswith("Shape"):
            n = [self.num_int(x) if not self.is_shape(x) else self.shape(x) for x in t[2]]
            if n and isinstance(n[0], tuple):
                return n[0]
            if len(n) == 0:
                return (1, 1)
            if len(n) == 1:
                return (n[0], 1)
            if len(n) == 2:
                return tuple(n)
            return (n[1], n[2])
        raise Unknown("shape " + k)

    def shape_num(self, t):
        if t[0] == "ndim":
            return ndim(self.shape(t[1]))
        if t[0] == "dim":
            i = self.num_int(t[2])
            sh = self.shape(t[1])
            return sh[i - 1] if i in (1, 2) else 1
        if t[0] == "numel":
            sh = self.shape(t[1])
            return sh[0] * sh[1]
        if t[0] == "nargs":
            return self.nargs(t[1])
        if t[0] == "size":
            if t[1][0] in ("args", "simpargs"):
                return self.nargs(t[1][1])
            if t[1][0] == "fld" and t[1][2] == "m_args":
                return self.nargs(t[1][1])
            return len(self.seq(t[1]))
        raise Unknown(t[0])

    # -- calls through contracts
    def call(self, t):
        name, recv, args = t[1], t[2], t[3]
        last = name.split("::")[-1]
        if last == "simplify" and recv is not None:
            return self.val(recv)
        if last == "process_Arg" and len(args) == 1 and self.operand is not None:
            return self.val(args[0])
        if last in ("subs", "iterateExp") and recv is not None and self.operand is not None:
            # by contract: the operand with the replacement carried out in it
            return self.operand(recv, self.val(recv))
        if last == "der" and recv is not None:
            r = self.val(recv)
            if bool(args) != self.partial:
                # derivative in the other direction (time / symbol): unrelated to .d
                return self.other_der(recv, r)
            return V(r.d)
        if last == "New":
            c = name.split("::")[-2] if "::" in name else recv
            if c in ("Int", "Real", "Bool"):
                return self.val(args[0])
            return self.node(c, args)
        if name in ("Int::getZero", "Real::getZero"):
            return const(0)
        if name in ("Int::getOne",):
            return const(1)
        if name in ("Int::getMinusOne",):
            return const(-1)
        if name in ("Int::getTwo",):
            return const(2)
        if name in ("Bool::getTrue",):
            return const(1)
        if name in ("Bool::getFalse",):
            return const(0)
        if name in ("Zero::getZero",):
            return V(np.zeros(self.shape(args[0]) if args else (1, 1), dtype=complex))
        if name == "Matrix::getOnes" or name == "Util::ones":
            return V(np.ones(self.shape(args[0]), dtype=complex))
        if name in ("Util::eye", "Eye::getEye"):
            sh = self.shape(args[0]) if args else (1, 1)
            if sh[0] != sh[1]:
                raise Skip("eye")
            return V(np.eye(sh[0], dtype=complex))
        if name == "Util::div":
            return mul2(self.val(args[0]), powv(self.val(args[1]), const(-1)))
        if name == "Util::sqrt":
            return powv(self.val(args[0]), const(0.5))
        if name == "Util::pow" or (name == "pow" and recv is None):
            return powv(self.val(args[0]), self.val(args[1]))
        if name == "sqrt" and recv is None:
            return powv(self.val(args[0]), const(0.5))
        if name == "atan2" and recv is None:
            return atan2v(self.val(args[0]), self.val(args[1]))
        if name in C_FUNCS and recv is None:
            return UN[C_FUNCS[name]](self.val(args[0]))
        if last == "transpose" and recv is not None:
            return transpose(self.val(recv))
        raise Unknown("call " + name)

    def other_der(self, t, r):
        g = np.random.RandomState(h("od", self.n, self.canon(t)) % 2 ** 32)
        return V(g.uniform(-1, 1, r.shape).astype(complex))

    def elementwise(self, c, m, extra):
        v, d = m.v.copy(), m.d.copy()
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                x = elem(m, i, j)
                y = UN[c](x) if c in UN else BI[c](x, *extra) if c in BI else V(x.d) if c == "Der" else None
                if y is None:
                    raise Unknown("functor " + c)
                v[i, j], d[i, j] = y.v[0, 0], y.d[0, 0]
        return V(v, d)

    # -- guards: True / False / None (not interpretable)
    def guard(self, a):
        try:
            return self.guard0(a)
        except Unknown:
            return None

    IRRELEVANT = ("m_simplified",)

    def guard0(self, a):
        k = a[0]
        if k == "bool":
            return a[1]
        if k == "not":
            g = self.guard0(a[1])
            return None if g is None else not g
        if k == "isa":
            return None
        if k == "deq":
            try:
                x, y = self.val(a[1]), self.val(a[2])
            except Skip:
                raise
            return same(x, y)
        if k == "eq":
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if p[0] == "type":
                    return True if False else self.typeguard(a)
                if q == NULL:
                    return None
            if self.is_shape(x) and self.is_shape(y):
                return self.shape(x) == self.shape(y)
            return same(self.val(x), self.val(y))
        if k == "lt":
            x, y = self.val(a[1]), self.val(a[2])
            return bool(x.v[0, 0].real < y.v[0, 0].real)
        if k == "truth":
            c = a[1]
            if c[0] == "call":
                if c[1] == "Util::is_Zero":
                    return bool(np.all(self.val(c[3][0]).v == 0))
                if c[1] == "Util::is_One":
                    v = self.val(c[3][0]).v
                    return bool(np.all(v == 1)) if 1 in v.shape else v.shape[0] == v.shape[1] and bool(np.all(v == np.eye(v.shape[0])))
                if c[1] == "Util::is_Int":
                    v = self.val(c[3][0])
                    tn = self.tagname(c[3][0])
                    r = v.scalar() and abs(v.v[0, 0].real - round(v.v[0, 0].real)) < 1e-13 and abs(v.v[0, 0].imag) < 1e-13
                    return r
                if c[1] == "Util::is_Const":
                    return None
            if c[0] == "num":
                return bool(self.val(c).v[0, 0].real != 0)
            return None
        return None

    def typeguard(self, a):
        """type-tag facts are built into the valuation"""
        p, q = (a[1], a[2]) if a[1][0] == "type" else (a[2], a[1])
        if q[0] == "enum":
            tn = self.tagname(p[1])
            if tn is None:
                return None
            return "Type_" + tn == q[1]
        return None

    def consistent(self, guards):
        """None: facts violated at this valuation; else list of uninterpreted guards"""
        un = []
        for a, b in guards:
            if a[0] == "loop" or a[0] == "caught":
                un.append((a, b))
                continue
            if a[0] == "isa":
                continue
            if a[0] == "eq" and (a[1][0] == "type" or a[2][0] == "type"):
                continue
            if a[0] == "truth" and a[1][0] == "fld" and a[1][2] in self.IRRELEVANT:
                continue
            try:
                g = self.guard(a)
            except Skip:
                return None
            if g is None:
                if self.harmless(a):
                    continue
                un.append((a, b))
                continue
            if g != b:
                # structural (in)equality: unequal terms may still have equal values
                if a[0] == "deq" and not b and not (self.constlike(a[1]) and self.constlike(a[2])):
                    continue
                if a[0] == "truth" and a[1][0] == "call" and a[1][1] in ("Util::is_Zero", "Util::is_One", "Util::is_Int") and self.constlike(a[1][3][0]):
                    return None
                if a[0] == "truth" and a[1][0] == "call" and a[1][1].startswith("Util::is_") and not b:
                    continue
                return None
        return un

    def constlike(self, t):
        if t[0] == "call" and t[1].split("::")[-1] in ("getZero", "getOne", "getMinusOne", "getTwo", "getTrue", "getFalse"):
            return True
        if t[0] in ("new", "inst") and t[1].split("::")[-1] in ("Int", "Real", "Zero", "Bool"):
            return True
        c = self.canon(t)
        if c in self.expset or (c[0] == "arg" and c[2] == I(1) and self.tagname(c[1]) == "Pow"):
            return True  # exponents are numbers (validated by the constructor)
        return self.tagname(t) in ("Int", "Real", "Zero", "Bool")

    def harmless(self, a):
        if a[0] == "truth" and a[1][0] == "fld" and a[1][2] in self.IRRELEVANT:
            return True
        if a[0] == "eq" and NULL in (a[1], a[2]):
            return True
        return False


def compare(E, o, got, spec, tries=240, want=6, scalars=False, shapes=None, what="v", setup=None, unk=None):
    """-> ('equal', n) | ('differ', detail) | ('undecided', why)"""
    ok = 0
    why = None
    bad = None
    guards = [(E.resolve(a, o.st) if a[0] not in ("loop", "caught") else a, b) for a, b in o.guards]
    for n in range(tries):
        w = World(E, o.st, n, guards, scalars=scalars, shapes=shapes)
        if n == 0 and w.infeasible():
            return ("infeasible", "")
        if setup:
            setup(w)
        try:
            un = w.consistent(guards)
        except RecursionError:
            return ("undecided", "recursion")
        if un is None:
            continue
        try:
            s = spec(w) if callable(spec) else w.val(spec)
        except Skip:
            continue
        except Unknown as u:
            return ("undecided", "spec: " + str(u))
        try:
            g = got(w) if callable(got) else w.val(got)
        except Skip as sk:
            # specification defined, extracted value undefined here
            why = "undefined: " + str(sk)
            bad = bad or ("undef", n, str(sk))
            continue
        except Unknown as u:
            return ("undecided", str(u))
        if not same(s, g):
            if un:
                return ("undecided", "unresolved condition " + "; ".join(EN.showg(x) for x in un)[:160])
            return ("differ", dict(world=n, spec=fmt(s), got=fmt(g)))
        ok += 1
        if ok >= want:
            break
    if ok == 0:
        return ("undecided", why or "no valuation satisfies the path condition")
    return ("equal", ok)


def fmt(v):
    a = np.round(v.v.real, 4)
    return str(a.tolist() if v.v.size > 1 else float(a[0, 0]))
