"""The Python interface: what the slots of the extension types compute, extracted path by path (calls of the
Python C API are uninterpreted until a concrete kind of operand is chosen) and evaluated on abstract Python
objects.  Nothing of the library or of Python is executed."""
import itertools
from fractions import Fraction

import decide
import engine as EN
import matrices
import sem
import shapes
from decide import Cannot, D
from engine import Undecided
from matrices import MatEnv, Wrong, dense, is_mat
from sem import NS
from shapes import SC, Sh, Thrown

NULL = ("NULL",)
FLAGS = {24: "int", 25: "list", 26: "tuple", 27: "bytes", 28: "str", 29: "dict"}
TYPES = {"PyFloat_Type": "float", "PyLong_Type": "int", "PySlice_Type": "slice", "PyTuple_Type": "tuple", "PyList_Type": "list",
         "PyUnicode_Type": "str", "PyBool_Type": "bool"}


class Left(Cannot):
    pass


class P:
    """a Python object"""
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __repr__(self):
        if self.kind == "basic":
            return matrices.tell(plain(self.val))
        if self.kind in ("tuple", "list"):
            return "(%s)" % ", ".join(map(repr, self.val))
        if self.kind == "slice":
            return ":".join("" if v is None else str(v) for v in self.val)
        return str(self.val) if self.val is not None else self.kind


class G:
    def __init__(self, name):
        self.name = name.split("::")[-1]


class T:
    def __init__(self, p):
        self.p = p


def plain(x):
    return x.num if isinstance(x, D) and x.num is not None else x


def scalar(v, tag="Symbol"):
    return D("number", SC, num=v, tag=tag)


def matrix(dims, xs, tag="Matrix"):
    return D("Matrix", dims, xs, tag=tag)


def norm(v):
    v = plain(v)
    if isinstance(v, P):
        if v.kind in ("int", "float"):
            return ("num", v.val)
        if v.kind == "basic":
            return norm(v.val)
        return ("py", v.kind)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float, Fraction)):
        return ("num", v)
    if isinstance(v, G):
        return {"_Py_TrueStruct": ("bool", True), "_Py_FalseStruct": ("bool", False), "_Py_NoneStruct": ("py", "none")}.get(v.name, ("global", v.name))
    if is_mat(v):
        return ("mat", tuple(v.dims), tuple(norm(x) for x in dense(v)))
    if isinstance(v, D):
        a = [norm(x) for x in v.args]
        if v.cls == "Greater":
            return ("Less",) + tuple(reversed(a))
        return (v.cls,) + tuple(a)
    if isinstance(v, tuple) and v and v[0] == "tuple":
        return v
    raise Cannot("result %r" % (v,))


def agree(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("num",) == b[:1]:
            return abs(float(a[1]) - float(b[1])) <= 1e-9 * max(1.0, abs(float(b[1])))
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    return a == b


def show(n):
    if n is None:
        return "an error"
    if n[0] == "num":
        return str(n[1])
    if n[0] == "mat":
        return "a matrix of shape %s: %s" % ("x".join(map(str, n[1][1:])) if n[1][0] else "()", " ".join(show(x) for x in n[2]))
    return "%s(%s)" % (n[0], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in n[1:]))


def int32(v):
    v = int(v)
    return (v + 2 ** 31) % 2 ** 32 - 2 ** 31


def long(v):
    if not -2 ** 63 <= v < 2 ** 63:
        raise Thrown(0)
    return v


class WrapEnv(MatEnv):
    handler = False         # whether paths through a handler of exceptions are followed

    def loopvalue(self, n, k):
        e = type(self)(self.fn, self.ops)
        e.heap, e.fields = self.heap, self.fields
        e.idx, e.phi, e.prev = dict(self.idx), dict(self.phi), dict(self.prev)
        if e.simulate(n) in decide.LEFT:
            raise Left("value of a loop that was left")
        if (n, k) in e.prev:
            return e.prev[(n, k)]
        v = e.phi.get((n, k))
        if v is None:
            raise Cannot("loop value")
        return v

    def simulate(self, n):
        L = self.fn.E.loops[n]
        if L.domain:
            return MatEnv.simulate(self, n)
        conds = getattr(L, "cond", None)
        if not conds:
            raise Cannot("loop")
        for key, (init, phi) in L.phis.items():
            k = L.kid[key]
            if key[0] == "H":
                self.prev[(n, k)] = self.seq_ops(init)
            else:
                self.phi[(n, k)] = self.ev(init)
        for _ in range(decide.MAXLOOP):
            how = None
            for t in L.trans:
                saved = dict(self.idx), dict(self.phi), dict(self.prev)
                if self.guards(t[0]):
                    how = t
                    break
                self.idx, self.phi, self.prev = saved
            if how is None:
                if any(self.guards(c) for c in conds):
                    raise Cannot("no transition of the loop applies")
                return "end"
            if how[3] in decide.LEFT:
                return how[3]
            phi, prev = {}, {}
            for key in L.phis:
                k = L.kid[key]
                if k in how[1]:
                    if key[0] == "H":
                        prev[(n, k)] = self.seq_ops(how[1][k])
                    else:
                        phi[(n, k)] = self.ev(how[1][k])
            self.phi.update(phi)
            self.prev.update(prev)
            if how[3] == "break":
                return "end"
            if how[3] not in (None, "continue"):
                raise Cannot("loop exit")
        raise Cannot("loop does not end")

    def seq(self, t):
        if t[0] == "fld" and t[2] == "m_basic":
            v = self.ev(t)
            if is_mat(v):
                s = matrices.Seq(v.args)
                s.cls, s.dims = v.cls, v.dims
                return s
        return MatEnv.seq(self, t)

    def lt(self, a, b):
        return plain(a) < plain(b)

    def guards(self, gs):
        for a, b in gs:
            if a[0] == "caught":
                if b and not self.handler:
                    return False
                continue
            if a[0] == "loop":
                if self.simulate(a[1]) not in decide.LEFT:
                    return not b
                continue
            if bool(self.cond(a)) != b:
                return False
        return True

    def cond(self, a):
        if a[0] == "truth":
            v = self.ev(a[1])
            return not (v is NULL) and bool(v)
        return MatEnv.cond(self, a)

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is NULL:
                return y is NULL
            if isinstance(x, G):
                if isinstance(y, G):
                    return x.name == y.name
                if isinstance(y, P) and y.kind == "bool":
                    return x.name == ("_Py_TrueStruct" if y.val else "_Py_FalseStruct")
                return x.name == "_Py_NoneStruct" and isinstance(y, P) and y.kind == "none"
        a, b = plain(a), plain(b)
        if isinstance(a, list) and isinstance(b, list):
            return list(a) == list(b)
        if is_mat(a) or is_mat(b):
            return agree(norm(a), norm(b))
        return MatEnv.eq(self, a, b)

    def kindof(self, p, want):
        if not isinstance(p, P):
            raise Cannot("kind of an object")
        return p.kind == want

    def typecheck(self, p, g):
        if not isinstance(g, G):
            raise Cannot("type object")
        if g.name in TYPES:
            return self.kindof(p, TYPES[g.name])
        if g.name == "CBasicObjectType":
            return self.kindof(p, "basic")
        if g.name.endswith("ObjectType") and not self.kindof(p, "basic"):
            return False
        raise Cannot("type " + g.name)

    def parse(self, c):
        """-> {position: value} or None when the arguments do not fit"""
        args, fmt = self.ev(c[3][0]), c[3][1]
        if not isinstance(args, P) or args.kind != "tuple" or fmt[0] not in ("s", "str"):
            raise Cannot("arguments")
        out, pos, opt, xs, i = {}, 2, False, list(args.val), 0
        fmt = fmt[1].split(":")[0].split(";")[0]
        while i < len(fmt):
            f = fmt[i]
            i += 1
            if f == "|":
                opt = True
                continue
            bang = i < len(fmt) and fmt[i] == "!"
            if bang:
                i += 1
            if not xs:
                if opt:
                    break
                return None
            x = xs.pop(0)
            if f == "O":
                if bang:
                    if not self.typecheck(x, self.ev(c[3][pos])):
                        return None
                    pos += 1
                out[pos] = x
            elif f in "ilnk":
                if x.kind != "int":
                    return None
                out[pos] = int32(x.val) if f == "i" else x.val
            elif f == "d":
                if x.kind not in ("int", "float"):
                    return None
                out[pos] = x.val
            elif f == "s":
                if x.kind != "str":
                    return None
                out[pos] = x.val
            else:
                raise Cannot("format " + fmt)
            pos += 1
        return None if xs else out

    def out(self, t):
        c = t[3]
        if c[1] == "PyArg_ParseTuple":
            r = self.parse(c)
            if r is None or t[2] not in r:
                raise Cannot("argument not given")
            return r[t[2]]
        if c[1] in ("PySlice_GetIndices", "PySlice_GetIndicesEx"):
            p, n = self.ev(c[3][0]), self.ev(c[3][1])
            if not isinstance(p, P) or p.kind != "slice":
                raise Cannot("slice")
            r = slice(*p.val).indices(n)
            if c[1].endswith("Ex"):
                r += (len(range(*r)),)
            return r[t[2] - 2]
        if c[1] == "PyLong_AsLongAndOverflow":
            v = self.ev(c[3][0]).val
            return 0 if -2 ** 63 <= v < 2 ** 63 else 1 if v > 0 else -1
        raise Cannot("output of " + c[1])

    def make(self, cls, args):
        """an expression of the class"""
        n = cls.split("::")[-1]
        a = [plain(self.ev(x)) for x in args]
        if n == "Int" and len(a) == 1:
            return int32(a[0])
        if n == "Real" and len(a) == 1:
            return a[0]
        if n == "Neg" and len(a) == 1:
            return D(a[0].cls, a[0].dims, [-x for x in a[0].args]) if is_mat(a[0]) else -a[0]
        if n in ("Add", "Mul") and len(a) == 2:
            return self.two("+" if n == "Add" else "*", a[0], a[1])
        if n == "Pow" and len(a) == 2 and not is_mat(a[0]):
            return a[0] ** a[1] if isinstance(a[1], int) or Fraction(a[1]).denominator == 1 else float(a[0]) ** float(a[1])
        if n == "Element" and len(a) >= 2:
            return self.element(a[0], *(a[1:] if len(a) > 2 else a[1:] + [0]))
        if n == "Zero" and len(a) <= 1:
            s = self.shape(args[0]) if args else SC
            return D("Matrix", s, [0] * (s[1] * s[2])) if s[0] else 0
        if n in ("Add", "Mul"):
            raise Cannot("arguments of " + n)
        return D(n, SC, a)

    def element(self, x, i, j):
        if not is_mat(x):
            if isinstance(x, D):
                raise Cannot("element of " + x.cls)
            if i or j:
                raise Wrong("accesses element (%s, %s) of a scalar" % (i, j))
            return x
        if not (isinstance(i, int) and isinstance(j, int)):
            raise Cannot("index")
        if not (0 <= i < x.dims[1] and 0 <= j < x.dims[2]):
            raise Wrong("accesses element (%d, %d) of a %dx%d matrix" % (i, j, x.dims[1], x.dims[2]))
        return dense(x)[i * x.dims[2] + j]

    def ev(self, t):
        k = t[0]
        if k == "null":
            return NULL
        if k == "s":
            return t[1]
        if k == "out":
            return self.out(t)
        if k == "op" and t[1] == "<<" and len(t) == 4:
            return self.ev(t[2]) << self.ev(t[3])
        if k == "fld" and t[1] == ("global",):
            return G(t[2])
        if k == "glob":
            return G(t[1])
        if k == "fld" and t[2] == "m_basic":
            o = self.ev(t[1])
            if isinstance(o, P) and o.kind == "basic":
                return o.val
            raise Cannot("expression of an object")
        if k == "deq":
            a, b = self.ev(t[1]), self.ev(t[2])
            if a is NULL or b is NULL:
                raise Wrong("accesses an object that does not exist")
            return agree(norm(a), norm(b))
        if k == "obj" and t in self.heap:
            h = self.heap[t]
            if len(h) == 1 and h[0][0] == "ctor" and h[0][1] not in (matrices.MAT, matrices.SYM):
                return self.make(h[0][1], h[0][2])
        if k == "new" and t[1].startswith(NS) and t[1].split("::")[-1] not in ("Matrix", "SymmetricMatrix", "Shape"):
            return self.make(t[1], t[2])
        if k == "new" and t[1] == NS + "Shape":
            a = [self.ev(x) for x in t[2]]
            if all(isinstance(x, int) for x in a) and len(a) <= 3:
                return [SC, Sh((1, a[0], 1)) if a else SC, Sh((2, *a)) if len(a) == 2 else SC, Sh((a[0], a[1], a[2])) if len(a) == 3 else SC][len(a)]
        if k in ("eq", "ne") and all(x[0] == "seqv" or x[0] == "obj" and x in self.heap and self.heap[x][:1] != () and self.heap[x][0][0] != "ctor" or x[0] == "obj" and self.heap.get(x) == () for x in t[1:3]):
            a, b = (self.seq_ops(x[1] if x[0] == "seqv" else self.heap[x]) for x in t[1:3])
            return (list(a) == list(b)) == (k == "eq")
        if k == "pynew":
            return self.ev(t[1])
        if k == "call":
            return self.call(t)
        return MatEnv.ev(self, t)

    def call(self, t):
        f, a = t[1], t[3]
        n = f.split("::")[-1]
        if n in ("Py_TYPE", "PyObject_Type"):
            return T(self.ev(a[0]))
        if n in ("PyType_IsSubtype", "PyObject_TypeCheck", "Py_IS_TYPE"):
            x = self.ev(a[0])
            return self.typecheck(x.p if isinstance(x, T) else x, self.ev(a[1]))
        if n == "PyType_HasFeature":
            b = self.ev(a[1])
            x = self.ev(a[0])
            return self.kindof(x.p, FLAGS.get(b.bit_length() - 1, "?"))
        if n in ("PyTuple_Size", "PyList_Size", "PyTuple_GET_SIZE", "PyList_GET_SIZE", "PySequence_Size", "PyObject_Size"):
            return len(self.ev(a[0]).val)
        if n in ("PyTuple_GetItem", "PyList_GetItem", "PyTuple_GET_ITEM", "PyList_GET_ITEM", "PySequence_GetItem"):
            x, i = self.ev(a[0]).val, self.ev(a[1])
            return x[i] if 0 <= i < len(x) else NULL
        if n in ("PyLong_AsLong", "PyLong_AsSsize_t", "PyLong_AsLongLong"):
            x = self.ev(a[0])
            return long(x.val) if x.kind == "int" else self.unknown(t)
        if n == "PyLong_AsLongAndOverflow":
            v = self.ev(a[0]).val
            return v if -2 ** 63 <= v < 2 ** 63 else -1
        if n in ("PyFloat_AsDouble", "PyLong_AsDouble"):
            x = self.ev(a[0])
            return x.val if x.kind in ("int", "float") else self.unknown(t)
        if n == "PyUnicode_AsUTF8":
            return self.ev(a[0]).val
        if n == "PyArg_ParseTuple":
            return self.parse(t) is not None
        if n == "PySlice_GetIndices":
            return 0
        if n == "PyObject_Init":
            m = [v for (x, k), v in self.fields.items() if k == "m_basic" and x[0] == "obj"]
            g = self.ev(a[1])
            if len(m) != 1 or not isinstance(g, G):
                raise Cannot("new object")
            return ("tuple", norm(self.ev(m[0])), ("type", g.name))
        if n == "Py_BuildValue":
            fmt = a[0][1]
            v = [norm(self.ev(x)) for x in a[1:]]
            b = fmt.strip("()")
            if len(b) != len(v) or b.strip("idlnOs"):
                raise Cannot("format " + fmt)
            if fmt.startswith("("):
                return ("tuple",) + tuple(v)
            return self.ev(a[1]) if len(v) == 1 else self.unknown(t)
        if n == "der" and t[2] is not None:
            return D("Der", SC, [plain(self.ev(t[2]))] + [plain(self.ev(x)) for x in a])
        if n == "PyErr_Occurred":
            return NULL
        if f.endswith("PyFactory::New"):
            return self.ev(a[0])
        if n in ("PyLong_FromLong", "PyFloat_FromDouble", "PyLong_FromSsize_t", "PyBool_FromLong"):
            v = plain(self.ev(a[0]))
            return bool(v) if n.startswith("PyBool") else v
        if n == "New" and "::" in f:
            return self.make(f.split("::")[-2], a)
        if n == "div" and len(a) == 2:
            return self.two("/", plain(self.ev(a[0])), plain(self.ev(a[1])))
        if n in ("operator<", "operator>", "operator<=", "operator>=") and len(a) == 2:
            x, y = (plain(self.ev(v)) for v in a)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[n[8:]]
        if n in ("getZero", "getOne", "getMinusOne") and "::" in f:
            if n == "getZero" and a:
                return self.make("Zero", a)
            return {"getZero": 0, "getOne": 1, "getMinusOne": -1}[n]
        if n == "getConst" and len(a) == 1:
            return self.ev(a[0])
        return MatEnv.ev(self, t)


def models():
    def new(E, o, vs, e, st):
        return [(("pynew", E.snapshot(E.deref_args(vs, st)[0], st)), st)]
    m = matrices.models()
    for n in ("Python::PyFactory::New", NS + "Python::PyFactory::New"):
        m[n] = new
    return m


class Slot:
    env = WrapEnv

    def __init__(self, db, fn):
        self.db, self.fn, self.this = db, fn, None
        self.checks = False
        self.E = EN.Engine(db, lambda f, e: sem.opaque(f, e), models())
        self.outs = self.E.run(fn, None)
        self.enum = self.E.tags

    def get(self, k, d=None):
        return self.fn.get(k, d)

    def path(self, ops):
        for o in self.outs:
            e = self.env(self, list(ops))
            e.heap, e.fields = o.st.heap, o.st.fields
            if e.guards(o.guards):
                if o.kind == "throw":
                    raise Thrown(o.line)
                return o, e
        for o in self.outs:         # errors raised by the function itself
            if any(a[0] == "caught" and b for a, b in o.guards):
                e = self.env(self, list(ops))
                e.heap, e.fields, e.handler = o.st.heap, o.st.fields, True
                if o.kind == "return" and o.value in (("null",), ("int", -1)) and e.guards([g for g in o.guards if g[0][0] != "caught"]):
                    raise Thrown(o.line)
        raise Cannot("no path applies")

    def value(self, ops):
        o, e = self.path(ops)
        v = e.ev(o.value)
        return None if v is NULL else norm(v)

    def built(self, ops):
        """expression an object holds after its construction or change"""
        o, e = self.path(ops)
        if e.ev(o.value) not in (0, True):
            return None
        for (x, k), v in o.st.fields.items():
            if k == "m_basic" and x == ("param", "p0"):
                return norm(e.ev(v))
        for x, v in o.st.heap.items():
            if x in (("args", ("fld", ("param", "p0"), "m_basic")), ("fld", ("param", "p0"), "m_basic")):
                old = ops[0].val
                s = e.seq_ops(v)
                return norm(D("Matrix", old.dims, list(s)))
        return norm(ops[0])


def judge(R, rule, name, slot, cases, built=False):
    """cases: (text, operands, expected or None for an error, may be an error)"""
    fn = slot.fn if isinstance(slot, Slot) else slot[0]
    if not isinstance(slot, Slot):
        R.undecided(rule, name, "", slot[1], fn.get("file", ""), fn["l"])
        return
    n, unk = 0, None
    for text, ops, want, lax in cases:
        try:
            got = slot.built(ops) if built else slot.value(ops)
        except Thrown:
            got = None
        except Wrong as w:
            R.bad(rule, name, "", "%s %s" % (text, w.args[0]), fn.get("file", ""), fn["l"])
            return
        except (Cannot, Undecided) as u:
            unk = "%s: %s" % (text, u)
            continue
        except (TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError, ValueError) as u:
            unk = "%s: not modelled: %s" % (text, u)
            continue
        if got is None and want is not None and lax:
            n += 1
            continue
        if got is None and want is None or got is not None and want is not None and agree(got, want):
            n += 1
            continue
        R.bad(rule, name, "", "%s gives %s, not %s" % (text, show(got), show(want)), fn.get("file", ""), fn["l"])
        return
    if n == 0:
        R.undecided(rule, name, "", unk or "no cases", fn.get("file", ""), fn["l"])
    else:
        R.ok(rule, name, "", "%d operands%s" % (n, "" if unk is None else ", others open: " + unk), fn.get("file", ""), fn["l"])


def target(db, e):
    """function a slot of a table refers to"""
    while isinstance(e, dict) and e.get("k") in ("cast", "un", "paren"):
        e = e.get("e")
    if isinstance(e, dict) and e.get("k") == "ref" and e.get("d") == "func":
        return db.funcs.get(e.get("u")) or db.funcs.get("%s@%s" % (e.get("u"), e.get("file")))
    return None


def table(g):
    i = (g or {}).get("i") or {}

    def placed(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "un", "paren"):
            e = e.get("e")
        if isinstance(e, dict):
            e["file"] = g.get("file")
        return e
    return {k: placed(e) for k, e in zip(i.get("fields", []), i.get("e", []))}


def globs(db):
    r = {}
    for k, g in db.globals.items():
        n = k.split("@")[0].split("::")[-1]
        if n not in r or (g.get("i") or {}).get("fields"):
            r[n] = g
    return r


def refname(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "un", "paren"):
        e = e.get("e")
    return e.get("n") if isinstance(e, dict) and e.get("k") == "ref" else None


def arith(op, a, b):
    r = matrices.combine(op, plain(a), plain(b))
    if r is None:
        return None
    return ("mat", tuple(r[0]), tuple(("num", x) for x in r[1])) if r[0][0] else ("num", r[1][0])


BUILDS = {"acos": "Acos", "asin": "Asin", "atan": "Atan", "atan2": "Atan2", "cos": "Cos", "der": "Der", "scalar": "Scalar", "sin": "Sin", "skew": "Skew",
          "solve": "Solve", "tan": "Tan", "transpose": "Transpose", "outer": "Outer", "If": "If", "sign": "Sign", "jacobian": "Jacobian", "inv": "Inverse",
          "Less": "Less", "Greater": "Greater", "Equal": "Equal"}
ARITY = {"atan2": 2, "solve": 2, "outer": 2, "If": 3, "jacobian": 2, "Less": 2, "Greater": 2, "Equal": 2}


def check(db, R):
    g = globs(db)
    slots = {}

    def slot(fn):
        if fn["u"] not in slots:
            try:
                slots[fn["u"]] = Slot(db, fn)
            except Undecided as u:
                slots[fn["u"]] = (fn, str(u))
        return slots[fn["u"]]

    base = table(g.get("CBasicObjectType"))
    num = table(g.get(refname(base.get("tp_as_number"))))
    maps = table(g.get(refname(base.get("tp_as_mapping"))))
    B = lambda v: P("basic", v)
    I = lambda v: P("int", v)
    F = lambda v: P("float", v)
    s1, s2 = B(scalar(7)), B(scalar(Fraction(3)))
    m1 = B(matrix(Sh((2, 2, 2)), [2, 3, 5, 11]))
    m2 = B(matrix(Sh((2, 2, 2)), [13, 17, 19, 23], "Symbol"))
    v1 = B(matrix(Sh((1, 2, 1)), [29, 31], "Symbol"))
    i1, f1 = I(4), F(Fraction(5, 2))
    val = lambda p: p.val
    everything = [s1, s2, m1, m2, v1, i1, I(-6), f1]
    for sl, op, what in (("nb_add", "+", "sum"), ("nb_subtract", "-", "difference"), ("nb_multiply", "*", "product"), ("nb_true_divide", "/", "quotient")):
        fn = target(db, num.get(sl))
        if fn is None:
            continue
        R.anchor("slots of the extension types", 1)
        cases = []
        for x, y in itertools.product(everything, everything):
            if "basic" in (x.kind, y.kind):
                cases.append(("%r %s %r" % (x, op, y), [x, y], arith(op, val(x), val(y)), False))
        for x in (P("str", "x"), P("none")):
            cases += [("a %s %s" % (op, x.kind), [s1, x], None, False), ("%s %s a" % (x.kind, op), [x, s1], None, False)]
        judge(R, "operators of Python expressions", "the %s of two Python objects" % what, slot(fn), cases)
        big = []
        for n in (2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 31 - 1, 5 * 10 ** 9, -7 * 10 ** 12, 2 ** 70):
            big.append(("%r %s %d" % (s1, op, n), [s1, I(n)], arith(op, val(s1), n), n >= 2 ** 63))
            big.append(("%d %s %r" % (n, op, s1), [I(n), s1], arith(op, n, val(s1)), n >= 2 ** 63))
        judge(R, "numbers keep their value", "the %s with a large integer" % what, slot(fn), big)
    fn = target(db, num.get("nb_negative"))
    if fn:
        R.anchor("slots of the extension types", 1)
        judge(R, "operators of Python expressions", "the negative of a Python object", slot(fn), [("-%r" % x, [x], norm(D(x.val.cls, x.val.dims, [-v for v in x.val.args]) if is_mat(x.val) else -plain(x.val)), False) for x in everything if x.kind == "basic"])
    fn = target(db, num.get("nb_absolute"))
    if fn:
        R.anchor("slots of the extension types", 1)
        judge(R, "operators of Python expressions", "the absolute value of a Python object", slot(fn), [("abs(%r)" % x, [x], ("Abs", norm(x)), False) for x in everything if x.kind == "basic"])
    fn = target(db, num.get("nb_power"))
    if fn:
        R.anchor("slots of the extension types", 1)
        cases = []
        for x in (s1, s2):
            for y in (i1, I(2), I(-3), f1, F(Fraction(1, 2)), I(1)):
                cases.append(("%r ** %r" % (x, y), [x, y, P("none")], ("num", Fraction(plain(x.val)) ** y.val if Fraction(y.val).denominator == 1 else float(plain(x.val)) ** float(y.val)), False))
        cases.append(("pow(a, 2, 3)", [s1, I(2), I(3)], None, False))
        judge(R, "operators of Python expressions", "the power of a Python object", slot(fn), cases)
    for name, fn in methods(db, g, refname(base.get("tp_methods"))):
        if name == "shape":
            R.anchor("slots of the extension types", 1)
            tup = lambda *d: ("tuple",) + tuple(("num", v) for v in d)
            cases = [("shape of %r" % (d,), [B(matrix(d, list(range(d[1] * d[2])), c)), NULL], tup(*(d[1:] if d[0] == 2 else (max(d[1:]),))), False)
                     for d in shapes.ALL if d[0] for c in ("Matrix", "Symbol")]
            judge(R, "shapes of Python expressions", "shape()", slot(fn), cases + [("shape of a scalar", [s1, NULL], tup(), False)])
        if name == "norm":
            R.anchor("slots of the extension types", 1)
            cases = []
            for d in (Sh((1, 3, 1)), Sh((1, 2, 1)), Sh((1, 1, 3))):
                xs = [3, 5, 11][:d[1] * d[2]]
                cases.append(("norm of %r" % xs, [B(matrix(d, xs)), NULL], ("num", float(sum(x * x for x in xs)) ** .5), False))
                cases.append(("norm of zeros", [B(matrix(d, [0 for _ in xs], "Zero")), NULL], ("num", 0), False))
            cases.append(("norm of a square matrix", [m1, NULL], None, False))
            judge(R, "norms of Python vectors", "norm()", slot(fn), cases)
    factory(db, R, slot, g)
    compare(db, R, slot, target(db, base.get("tp_richcompare")), B, I, F)
    access(db, R, slot, maps, B, I)
    register(db, R, slot, g, B, I)


def factory(db, R, slot, g):
    """every expression reaches Python as an object that holds it"""
    special = {"CSymbolObjectType": ("Symbol", "Unknown"), "CMatrixObjectType": ("Matrix", "SymmetricMatrix"), "CZerosObjectType": ("Zero",), "CEyeObjectType": ("Eye",)}
    allowed = {"C%sObjectType" % (n[0].upper() + n[1:]): (c,) for n, c in list(BUILDS.items()) + [("element", "Element"), ("inverse", "Inverse")]}
    allowed.update(special)
    for fn in [f for f in db.funcs.values() if f["f"].endswith("PyFactory::New") and f.get("body")]:
        R.anchor("slots of the extension types", 1)
        s = slot(fn)
        rule = "expressions handed to Python"
        if not isinstance(s, Slot):
            R.undecided(rule, "PyFactory::New", "", s[1], fn.get("file", ""), fn["l"])
            continue
        for tag in sorted(t[5:] for t in s.enum if t.startswith("Type_")):
            x = scalar(7, tag) if tag in ("Int", "Real") else D("Matrix", Sh((2, 2, 2)), [2, 3, 5, 7], tag=tag) if "Matrix" in tag or tag in ("Zero", "Eye") else scalar(7, tag)
            try:
                v = s.value([x])
            except (Cannot, Undecided, Thrown, TypeError, AttributeError, KeyError, IndexError) as u:
                R.undecided(rule, tag, "", str(u), fn.get("file", ""), fn["l"])
                continue
            if tag in ("Int", "Real") and v == ("num", 7):
                R.ok(rule, tag, "", "a number", fn.get("file", ""), fn["l"])
                continue
            t = v[2][1] if v is not None and v[0] == "tuple" else None
            if t is None or not agree(v[1], norm(x)):
                R.bad(rule, tag, "", "an expression of type %s becomes %s" % (tag, "an object without it" if t else show(v)), fn.get("file", ""), fn["l"])
            elif t == "CBasicObjectType" or tag in allowed.get(t, ()):
                R.ok(rule, tag, "", t, fn.get("file", ""), fn["l"])
            elif t in allowed:
                R.bad(rule, tag, "", "an expression of type %s becomes an object of type %s" % (tag, t), fn.get("file", ""), fn["l"])
            else:
                R.undecided(rule, tag, "", "type " + t, fn.get("file", ""), fn["l"])


def methods(db, g, name):
    """entries of a method table"""
    d = g.get(name) or {}
    for e in (d.get("i") or {}).get("e", []):
        if isinstance(e, dict) and e.get("fields"):
            x = table({"i": e, "file": d.get("file")})
            n = x.get("ml_name")
            f = target(db, x.get("ml_meth"))
            if isinstance(n, dict) and n.get("k") == "str" and f is not None:
                yield n["v"], f


def compare(db, R, slot, fn, B, I, F):
    if fn is None:
        return
    R.anchor("slots of the extension types", 1)
    ops = [(0, "<", lambda a, b: a < b), (2, "==", lambda a, b: a == b), (3, "!=", lambda a, b: a != b), (4, ">", lambda a, b: a > b),
           (1, "<=", lambda a, b: a <= b), (5, ">=", lambda a, b: a >= b)]
    for c, o, f in ops:
        cases = []
        xs = [2, 5, Fraction(5, 2)]
        for x, y in itertools.product(xs, xs):
            tx, ty = ("Int" if isinstance(v, int) else "Real" for v in (x, y))
            for q in (B(scalar(y, ty)), I(y) if ty == "Int" else F(y)):
                cases.append(("%s %s %s" % (x, o, y), [B(scalar(x, tx)), q, c], ("bool", f(x, y)), c in (1, 5)))
        judge(R, "comparisons of Python expressions", "numbers: " + o, slot(fn), cases)


def places(dims, ix):
    """-> list of element places and the shape of the access (None: single element)"""
    r, c = dims[1], dims[2]
    rng = lambda p, n: [p.val] if p.kind == "int" else list(range(*slice(*p.val).indices(n)))
    if ix.kind != "tuple":
        k = rng(ix, r * c)
        return [divmod(i, c) for i in k], (None if ix.kind == "int" else Sh((1, len(k), 1)))
    rows, cols = rng(ix.val[0], r), rng(ix.val[1], c)
    pos = [(i, j) for i in rows for j in cols]
    sl = [p.kind == "slice" for p in ix.val]
    if len(pos) == 1:
        return pos, None
    if len(cols) == 1:
        return pos, Sh((1, len(rows), 1))
    if len(rows) == 1:
        return pos, Sh((1, 1, len(cols)))
    return pos, Sh((2, len(rows), len(cols)))


def access(db, R, slot, maps, B, I):
    S = lambda *a: P("slice", a if len(a) == 3 else a + (None,))
    Tt = lambda *a: P("tuple", list(a))
    objs = []
    for tag in ("Matrix", "Symbol", "Zero", "Eye"):
        for d in (Sh((1, 3, 1)), Sh((2, 2, 3)), Sh((2, 3, 3)), Sh((2, 3, 2))):
            n = d[1] * d[2]
            if tag == "Eye" and d[1] != d[2]:
                continue
            xs = {"Zero": [0] * n, "Eye": [int(i // d[2] == i % d[2]) for i in range(n)]}.get(tag, [101 + 7 * i + i * i for i in range(n)])
            objs.append((tag, matrix(d, xs, tag)))

    def indices(d, flat):
        ix = [Tt(I(i), I(j)) for i in range(d[1]) for j in range(d[2])]
        if flat:
            ix += [I(i) for i in range(d[1] * d[2])] + [S(0, 2), S(1, None), S(None, None), S(-2, None), S(None, None, 2)]
        if d[2] > 1:
            ix += [Tt(S(None, None), I(j)) for j in range(d[2])] + [Tt(I(i), S(None, None)) for i in range(d[1])] + [Tt(S(0, 2), S(1, None)), Tt(S(1, None), S(0, 2)), Tt(S(None, None), S(0, 2)), Tt(S(None, None, 2), S(0, 2)), Tt(S(0, 2), S(None, None, 2)), Tt(S(-2, None), S(-1, None))]
        return ix
    fn = target(db, maps.get("mp_length"))
    if fn:
        R.anchor("slots of the extension types", 1)
        judge(R, "elements of Python expressions", "number of elements", slot(fn), [("len(%s of shape %dx%d)" % (t, x.dims[1], x.dims[2]), [B(x)], ("num", x.dims[1] * x.dims[2]), False) for t, x in objs])
    fn = target(db, maps.get("mp_subscript"))
    if fn:
        for tag in ("Matrix", "Symbol", "Zero", "Eye"):
            R.anchor("slots of the extension types", 1)
            one, many, out = [], [], []
            for t, x in objs:
                if t != tag:
                    continue
                for ix in indices(x.dims, tag == "Matrix" or x.dims[2] == 1):
                    pos, shp = places(x.dims, ix)
                    e = [dense(x)[i * x.dims[2] + j] for i, j in pos]
                    text = "%s of shape %dx%d [%r]" % (t, x.dims[1], x.dims[2], ix)
                    if shp is None:
                        one.append((text, [B(x), ix], ("num", e[0]), False))
                    else:
                        many.append((text, [B(x), ix], ("mat", tuple(shp), tuple(("num", v) for v in e)), tag == "Eye"))
                for ix in (I(x.dims[1] * x.dims[2]), Tt(I(x.dims[1]), I(0)), Tt(I(0), I(x.dims[2])), Tt(I(0), I(0), I(0)), P("str", "a")):
                    out.append(("%s of shape %dx%d [%r]" % (t, x.dims[1], x.dims[2], ix), [B(x), ix], None, False))
            judge(R, "elements of Python expressions", "single elements of a %s" % tag, slot(fn), one)
            judge(R, "elements of Python expressions", "slices of a %s" % tag, slot(fn), many)
            judge(R, "elements of Python expressions", "elements outside of a %s are rejected" % tag, slot(fn), out)
    fn = target(db, maps.get("mp_ass_subscript"))
    if fn:
        for tag in ("Matrix", "Zero"):      # (no operation hands an Eye to Python)
            R.anchor("slots of the extension types", 1)
            one, many, bad = [], [], []
            for t, x in objs:
                if t != tag:
                    continue
                for ix in indices(x.dims, tag != "Eye"):
                    pos, shp = places(x.dims, ix)
                    new = list(dense(x))
                    vals = [-3 - 2 * i for i in range(len(pos))]
                    for (i, j), v in zip(pos, vals):
                        new[i * x.dims[2] + j] = v
                    want = ("mat", tuple(x.dims), tuple(("num", v) for v in new))
                    text = "%s of shape %dx%d: [%r] =" % (t, x.dims[1], x.dims[2], ix)
                    if shp is None:
                        one.append((text, [B(x), ix, I(vals[0])], want, False))
                    else:
                        many.append((text, [B(x), ix, B(matrix(shp, vals))], want, False))
                        bad.append((text + " scalar", [B(x), ix, B(scalar(7))], None, False))
            judge(R, "changed elements of Python matrices", "single elements of a %s" % tag, slot(fn), one, True)
            judge(R, "changed elements of Python matrices", "slices of a %s" % tag, slot(fn), many, True)
            judge(R, "changed elements of Python matrices", "values of another shape for a %s" % tag, slot(fn), bad, True)


def register(db, R, slot, g, B, I):
    fs = [f for f in db.funcs.values() if f["n"].split("::")[-1] == "PyInit_symbolics" and f.get("body")]
    R.anchor("initialisation of the module", len(fs))
    for f in fs:
        s = slot(f)
        if not isinstance(s, Slot):
            R.undecided("names of the Python module", f["n"], "", s[1], f.get("file", ""), f["l"])
            continue
        names = {}
        for o in s.outs:
            for e in o.st.effects:
                if e[0] == "call" and e[1] == "PyModule_AddObject" and e[3][2][0] == "fld" and e[3][1][0] in ("s", "str"):
                    names[e[3][1][1]] = (e[3][2][2].split("::")[-1], e[4])
        for name, cls in sorted(BUILDS.items()):
            if name not in names:
                continue
            t, line = names[name]
            init = target(db, table(g.get(t)).get("tp_init"))
            if init is None:
                R.undecided("names of the Python module", name, "", "constructor not found", f.get("file", ""), f["l"])
                continue
            R.anchor("functions of the Python module", 1)
            k = ARITY.get(name, 1)
            cases = []
            for vs in ((7, 11, 13), (17, 5, 3)):
                a = [B(scalar(v)) for v in vs[:k]]
                cases.append(("%s(%s)" % (name, ", ".join(map(str, vs[:k]))), [B(None), P("tuple", a), NULL], norm(D(cls, SC, list(vs[:k]))), False))
            a = [B(scalar(v)) for v in (7, 11, 13, 17)]
            if name == "der":
                cases.append(("der(7, 11)", [B(None), P("tuple", [B(scalar(7)), B(scalar(11))]), NULL], ("Der", ("num", 7), ("num", 11)), False))
            for n in (k - 1, k + (2 if name == "der" else 1)):
                cases.append(("%s with %d arguments" % (name, n), [B(None), P("tuple", a[:n]), NULL], None, False))
            judge(R, "names of the Python module", "%s builds %s" % (name, cls), slot(init), cases, True)
        for name in ("CZeros", "CEye", "CMatrix"):
            init = target(db, table(g.get(names.get(name, ("", 0))[0])).get("tp_init"))
            if init is None:
                continue
            R.anchor("functions of the Python module", 1)
            cases = []
            for d in ((3,), (2, 3), (3, 2), (3, 3), (2, 2), ()):
                sh = [SC, Sh((1, *d, 1)) if len(d) == 1 else SC, Sh((2, *d)) if len(d) == 2 else SC][len(d)]
                n = sh[1] * sh[2]
                if not d:
                    want = ("num", 0) if name == "CZeros" else None
                    if name == "CMatrix":
                        continue
                else:
                    want = ("mat", tuple(sh), tuple(("num", int(name == "CEye" and i // sh[2] == i % sh[2])) for i in range(n)))
                if name == "CEye" and (len(d) != 2 or d[0] != d[1]):
                    want = None
                cases.append(("%s(%r)" % (name, d), [B(None), P("tuple", [P("tuple", [I(x) for x in d])]), NULL], want, False))
            cases.append(("%s('a')" % name, [B(None), P("tuple", [P("str", "a")]), NULL], None, False))
            cases.append(("%s()" % name, [B(None), P("tuple", []), NULL], None, False))
            judge(R, "names of the Python module", name, slot(init), cases, True)
        if "element" in names:
            init = target(db, table(g.get(names["element"][0])).get("tp_init"))
            if init:
                x = matrix(Sh((2, 2, 3)), [31, 37, 41, 43, 47, 53], "Symbol")
                cases = [("element(A, %d, %d)" % (i, j), [B(None), P("tuple", [B(x), I(i), I(j)]), NULL], ("num", dense(x)[3 * i + j]), False) for i in range(2) for j in range(3)]
                judge(R, "names of the Python module", "element", slot(init), cases, True)
