"""Matrix literals: what the operators and accessors of Matrix and SymmetricMatrix compute, extracted path by
path (guards, final elements, final shape) and evaluated on matrices of all small shapes with random elements.
Nothing of the library is executed; the arithmetic of the elements is that of numbers."""
import itertools
import random
from fractions import Fraction

import decide
import engine as EN
import sem
import shapes
from decide import Cannot, D
from engine import Undecided
from sem import NS
from shapes import ALL, SC, Sh, Thrown

MAT, SYM = NS + "Matrix", NS + "SymmetricMatrix"


class Wrong(Exception):
    pass


def is_mat(x):
    return isinstance(x, D) and x.cls in ("Matrix", "SymmetricMatrix")


def models():
    m = dict(sem.models())
    for c in (MAT, SYM):
        m[c + "::getNumEl"] = lambda E, o, vs, e, st: [(("mnumel", E.snapshot(o, st), sem.m_shape(E, o, vs, e, st)[0][0]), st)]
    for op in "+*":
        m[NS + "Shape::operator" + op] = shapeop(op)
    for op in "+-*/":
        m[SYM + "::operator" + op + "="] = inplace(op, SYM)
    return m


def inplace(op, cls):
    def f(E, o, vs, e, st):
        v = E.deref_args(vs, st)[0]
        st.heap[o] = (("ctor", cls, (("mop", op, E.snapshot_inst(o, st), E.snapshot(v, st)),)),)
        return [(o, st)]
    return f


def shapeop(op):
    """an operation on shapes may raise an error, also when its value is not used"""
    def f(E, o, vs, e, st):
        t = ("shop", op, o, E.deref_args(vs, st)[0])
        st.effects += (("needs", t),)
        return [(t, st)]
    return f


def numel(cls, s):
    return s[1] * (s[1] + 1) // 2 if cls == "SymmetricMatrix" else s[1] * s[2]


def dense(x):
    """elements row by row"""
    if x.cls == "Matrix":
        return list(x.args)
    n, k = x.dims[1], {}
    c = 0
    for i in range(n):
        for j in range(i, n):
            k[(i, j)] = k[(j, i)] = x.args[c]
            c += 1
    return [k[(i, j)] for i in range(n) for j in range(n)]


def arith(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return Fraction(a) / b
    raise Cannot("operation " + str(op))


def combine(op, a, b):
    """(shape, elements) of the operation, None where it is not defined"""
    if not is_mat(b) and not is_mat(a):
        return SC, [arith(op, a, b)]
    sa, sb = (x.dims if is_mat(x) else SC for x in (a, b))
    ea, eb = (dense(x) if is_mat(x) else [x] for x in (a, b))
    if op == "*" and sa[0] and sb[0]:
        s = shapes.mul(sa, sb)
        if s is None:
            return None
        r, n, c = sa[1], sa[2], sb[2]
        return s, [sum(ea[i * n + k] * eb[k * c + j] for k in range(n)) for i in range(r) for j in range(c)]
    if op == "/" and sb[0]:
        return None
    s = shapes.add(sa, sb)
    if s is None:
        return None
    n = max(len(ea), len(eb))
    return s, [arith(op, ea[i if sa[0] else 0], eb[i if sb[0] else 0]) for i in range(n)]


def result(op, a, b, r):
    if all(x.cls == "SymmetricMatrix" for x in (a, b) if is_mat(x)) and not (op == "*" and is_mat(a) and is_mat(b) and a.dims[0] and b.dims[0]):
        n = r[0][1]
        return D("SymmetricMatrix", r[0], [r[1][i * n + j] for i in range(n) for j in range(i, n)])
    return D("Matrix", r[0], r[1])


class Seq(list):
    """elements of a matrix under construction"""
    cls = dims = None

    def like(self, o):
        self.cls, self.dims = o.cls, o.dims
        return self


class MatEnv(decide.Env):
    heap = fields = {}

    # -- values
    def plain(self, x):
        if isinstance(x, D) and x.num is not None:
            return x.num
        return x

    def shape(self, t):
        v = self.ev(t)
        if isinstance(v, Sh):
            return v
        if isinstance(v, D):
            return v.dims
        if isinstance(v, Seq) and v.dims is not None:
            return v.dims
        if isinstance(v, (int, Fraction)):
            return SC
        raise Cannot("shape")

    def build(self, cls, args):
        """a new matrix: of a shape (filled with zeros), of values and a shape, or a copy"""
        cls = cls.split("::")[-1]
        if len(args) == 1 and is_mat(args[0]):
            s = Seq(args[0].args if args[0].cls == cls else dense(args[0]))
            s.cls, s.dims = cls, args[0].dims
            return s
        if args and isinstance(args[0], Sh):
            s = Seq([0] * numel(cls, args[0]) if len(args) == 1 or args[1] else [])
            s.cls, s.dims = cls, args[0]
            return s
        if len(args) == 2 and isinstance(args[0], list) and isinstance(args[1], Sh):
            s = Seq(args[0])
            s.cls, s.dims = cls, args[1]
            if len(s) != numel(cls, args[1]):
                raise Thrown(0)
            return s
        raise Cannot("constructor of " + cls)

    def place(self, s, ix):
        if len(ix) == 1:
            i = ix[0]
        else:
            if s.dims is None:
                raise Cannot("shape of the elements")
            i = index(s.cls, s.dims, *ix)
        if not isinstance(i, int) or not 0 <= i < len(s):
            if self.fn.checks:
                raise Wrong("is not rejected: element %s of %d" % (i, len(s)))
            raise Thrown(0)
        return i

    def seq_ops(self, ops):
        out = Seq()
        for o in ops:
            if o[0] == "prev":
                if (o[1], o[2]) not in self.prev:
                    raise Cannot("sequence of a loop")
                out = self.copy(self.prev[(o[1], o[2])])
            elif o[0] == "ctor":
                if o[1] in (MAT, SYM):
                    out = self.build(o[1], [self.ev(a) for a in o[2]])
                else:
                    raise Cannot("object of class " + o[1])
            elif o[0] == "item":
                out.append(self.plain(self.ev(o[1])))
            elif o[0] == "map":
                out = self.copy(self.loopvalue(o[1], o[2]))
            elif o[0] == "copy":
                s = self.seq(o[1])
                if not out and isinstance(s, Seq):
                    out.cls, out.dims = s.cls, s.dims
                out += s
            elif o[0] in ("set", "mset"):
                ix = [self.ev(i) for i in o[1]] if o[0] == "mset" else [self.ev(o[1])]
                out[self.place(out, ix)] = self.plain(self.ev(o[2]))
            elif o[0] == "reserve":
                pass
            else:
                raise Cannot("sequence op " + o[0])
        return out

    def copy(self, s):
        r = Seq(s)
        if isinstance(s, Seq):
            r.cls, r.dims = s.cls, s.dims
        return r

    def seq(self, t):
        if t[0] == "seqv":
            return self.seq_ops(t[1])
        if t[0] in ("args",) or t[0] == "fld" and t[2] == "m_args":
            o = self.ev(t[1])
            if is_mat(o):
                return Seq(o.args).like(o)
        if t[0] == "param":
            v = self.ev(t)
            if isinstance(v, list):
                return v
        if t[0] == "obj" and t in self.heap:
            return self.seq_ops(self.heap[t])
        raise Cannot("sequence " + t[0])

    def matrix(self, s):
        if s.dims is None or s.cls is None:
            raise Cannot("shape of a matrix")
        if len(s) != numel(s.cls, s.dims):
            raise Wrong("has %d elements for the shape %r" % (len(s), s.dims))
        return D(s.cls, s.dims, list(s))

    def two(self, op, a, b):
        if is_mat(a) or is_mat(b):
            r = combine(op, a, b)
            if r is None:
                raise Thrown(0)
            return result(op, a, b, r)
        return arith(op, a, b)

    def ev(self, t):
        k = t[0]
        if k == "mop":
            a = self.plain(self.ev(t[2]))
            b = None if t[3] is None else self.plain(self.ev(t[3]))
            if t[1] == "neg":
                return D(a.cls, a.dims, [-x for x in a.args]) if is_mat(a) else -a
            return self.two(t[1], a, b)
        if k == "op" and t[1] == "/" and len(t) == 4:
            return arith("/", self.plain(self.ev(t[2])), self.plain(self.ev(t[3])))
        if k == "op" and t[1] in ("neg", "-") and len(t) == 3:
            return -self.plain(self.ev(t[2]))
        if k == "op" and len(t) == 4 and t[1] in ("//", "idiv"):
            return self.ev(t[2]) // self.ev(t[3])
        if k == "real" and isinstance(t[1], float):
            return Fraction(t[1])
        if k == "mget":
            ix = [self.ev(i) for i in t[2]]
            if t[1][0] == "seqv":
                s = self.seq_ops(t[1][1])
            else:
                o = self.ev(t[1])
                s = o if isinstance(o, Seq) else Seq(o.args).like(o) if is_mat(o) else None
                if s is None:
                    raise Cannot("elements")
            return s[self.place(s, ix)]
        if k == "inst" and t[1] in (MAT, SYM):
            s = self.build(t[1], [self.ev(a) for a in t[2]])
            for x in t[3]:
                if x[0] == "map":
                    s = self.copy(self.loopvalue(x[1], x[2]))
                elif x[0] in ("set", "mset"):
                    ix = [self.ev(i) for i in x[1]] if x[0] == "mset" else [self.ev(x[1])]
                    s[self.place(s, ix)] = self.plain(self.ev(x[2]))
                else:
                    raise Cannot("change of a matrix: " + x[0])
            return self.matrix(s)
        if k == "new":
            if t[1] in (MAT, SYM):
                return self.matrix(self.build(t[1], [self.ev(a) for a in t[2]]))
            if t[1] in (NS + "Int", NS + "Real") and len(t[2]) == 1:
                return self.plain(self.ev(t[2][0]))
            if t[1] == NS + "Shape" and len(t[2]) == 1:
                return self.shape(t[2][0])
        if k == "obj" and t in self.heap:
            return self.matrix(self.seq_ops(self.heap[t]))
        if k == "num":
            return self.plain(self.ev(t[1]))
        if k == "call" and t[1].split("::")[-1] == "New" and t[1].split("::")[-2] in ("Add", "Mul", "Neg"):
            a = [self.plain(self.ev(x)) for x in t[3]]
            o = t[1].split("::")[-2]
            if o == "Neg" and len(a) == 1:
                return D(a[0].cls, a[0].dims, [-x for x in a[0].args]) if is_mat(a[0]) else -a[0]
            if o != "Neg" and len(a) == 2:
                return self.two("+" if o == "Add" else "*", a[0], a[1])
        if k == "call" and t[1].split("::")[-1] == "getZero" and not t[3]:
            return 0
        if k == "call" and t[1].split("::")[-1] == "getOne" and not t[3]:
            return 1
        if k == "shape" or k == "fld" and t[2] == "m_shape":
            return self.shape(t[1])
        if k == "fld" and t[2] == "m_value":
            return self.plain(self.ev(t[1]))
        if k == "ndim":
            return self.shape(t[1])[0]
        if k == "dim":
            i = self.ev(t[2])
            s = self.shape(t[1])
            return s[i] if i in (1, 2) else 1
        if k == "numel":
            s = self.shape(t[1])
            return s[1] * s[2]
        if k == "mnumel":
            if t[1][0] == "this":
                return numel(t[1][1].split("::")[-1], self.shape(t[2]))
            if t[1][0] == "obj" and t[1] in self.heap:
                return numel(self.heap[t[1]][0][1].split("::")[-1], self.shape(t[2]))
            o = self.ev(t[1])
            return numel(o.cls, self.shape(t[2]))
        if k == "op" and t[1] == "/i" and len(t) == 4:
            return self.ev(t[2]) // self.ev(t[3])
        if k == "shop":
            r = (shapes.add if t[1] == "+" else shapes.mul if t[1] == "*" else lambda a, b: self.unknown(t))(self.shape(t[2]), self.shape(t[3]))
            if r is None:
                raise Thrown(0)
            return r
        if k == "shT":
            s = self.shape(t[1])
            return Sh((s[0], s[2], s[1]))
        if k == "isa":
            return self.cond(t)
        if k == "seqv":
            return self.seq_ops(t[1])
        if k == "copyof":
            return self.ev(t[1])
        return decide.Env.ev(self, t)

    def eq(self, a, b):
        a, b = self.plain(a), self.plain(b)
        if isinstance(a, D) or isinstance(b, D):
            raise Cannot("comparison of expressions")
        return a == b

    def lt(self, a, b):
        return a < b


def index(cls, s, i, j):
    """place of an element"""
    if cls == "SymmetricMatrix":
        n = s[1]
        if i >= n or j >= n:
            return n * n
        i, j = min(i, j), max(i, j)
        return sum(n - k for k in range(i)) + j - i
    return i * s[2] + j


class Body:
    def __init__(self, db, fn, this):
        self.db, self.fn, self.this = db, fn, this
        self.E = EN.Engine(db, lambda f, e: sem.opaque(f, e), models())
        self.outs = self.E.run(fn, this)
        self.enum = self.E.tags
        # get() and set() reject what is outside; all others rely on that
        self.checks = fn.get("n") in ("get", "set")

    def path(self, ops):
        for o in self.outs:
            e = MatEnv(self, ops)
            e.heap, e.fields = o.st.heap, o.st.fields
            if e.guards(o.guards):
                for x in o.st.effects:
                    if x[0] == "needs":
                        e.ev(x[1])
                if o.kind == "throw":
                    raise Thrown(o.line)
                return o, e
        raise Cannot("no path applies")

    def result(self, ops):
        """value returned"""
        o, e = self.path(ops)
        return e.plain(e.ev(o.value)), o.line

    def base(self, e, cls, x):
        """the object after the constructor of its base class"""
        if x[1] == MAT:
            s = e.build(MAT, [e.ev(a) for a in x[2]])
            return D(cls, s.dims, list(s))
        if x[1] == NS + "NaryOp":
            v = e.ev(x[2][1]) if len(x[2]) > 1 and x[2][1][0] == "param" else []
            return D(cls, SC, list(v))
        raise Cannot("base " + x[1])

    def changed(self, ops):
        """the matrix `this` afterwards"""
        o, e = self.path(ops)
        cls = self.this[1].split("::")[-1]
        old = ops[0]
        for x in o.st.effects:
            if x[0] == "basector":
                old = self.base(e, cls, x)
        ops[0] = e.ops[0] = old
        sh = old.dims if old is not None else SC
        for (t, k), v in o.st.fields.items():
            if k == "m_shape" and t[0] == "this":
                sh = e.shape(v)
            elif t[0] == "fld" and t[2] == "m_shape" and t[1][0] == "this":
                raise Cannot("shape changed in place")
        if any(t[0] == "this" for t in o.st.heap):
            raise Cannot("elements changed twice")
        k = next((t for t in o.st.heap if t[0] == "args" and t[1][0] == "this"), None)
        xs = list(old.args) if k is None and old is not None else [] if k is None else list(e.seq_ops(o.st.heap[k]))
        if len(xs) != numel(cls, sh):
            raise Wrong("leaves %d elements for the shape %r" % (len(xs), sh))
        return D(cls, sh, xs), o.line


def same(a, b):
    """b: (shape, elements)"""
    if is_mat(a):
        return (a.dims, dense(a)) == (b[0], list(b[1]))
    return b[0][0] == 0 and len(b[1]) == 1 and a == b[1][0]


def tell(x):
    if is_mat(x):
        return "%s%r %s" % (x.cls, x.dims, " ".join(str(v) for v in x.args))
    return str(x)


def one(R, rule, name, fn, cases):
    n, unk = 0, None
    for text, f, want in cases:
        line = fn["l"]
        try:
            got, line = f()
        except Thrown as t:
            got = None
        except Wrong as w:
            R.bad(rule, name, "", "%s %s" % (text, w.args[0]), fn.get("file", ""), line)
            return
        except (Cannot, Undecided) as u:
            unk = str(u)
            continue
        except (TypeError, AttributeError, KeyError, IndexError, ZeroDivisionError) as u:
            unk = "not modelled: %s" % u
            continue
        n += 1
        if want is None:
            if got is not None:
                R.bad(rule, name, "", "%s is not rejected" % text, fn.get("file", ""), line)
                return
        elif got is None:
            R.bad(rule, name, "", "%s raises an error" % text, fn.get("file", ""), line)
            return
        elif not same(got, want):
            R.bad(rule, name, "", "%s gives %s, not %s" % (text, tell(got), "%r %s" % (want[0], " ".join(str(v) for v in want[1]))), fn.get("file", ""), line)
            return
    if n == 0:
        R.undecided(rule, name, "", unk or "no cases", fn.get("file", ""), fn["l"])
    else:
        R.ok(rule, name, "", "%d operands%s" % (n, "" if unk is None else ", others open: " + unk), fn.get("file", ""), fn["l"])


SHAPES = {"Matrix": ALL, "SymmetricMatrix": [SC, Sh((2, 2, 2)), Sh((2, 3, 3))]}


def check(db, R, seed=1):
    rnd = random.Random(seed)
    num = lambda: rnd.choice((-1, 1)) * rnd.randrange(2, 97)

    def mats(c):
        return [D(c, s, [num() for _ in range(numel(c, s))]) for s in SHAPES[c]]

    def kinds(p):
        """-> sample operands for a parameter type"""
        p = p.replace("const ", "").replace("&", "").strip()
        if p in (MAT, SYM):
            return mats(p.split("::")[-1])
        if p in (NS + "Int", NS + "Real"):
            return [D("number", SC, num=num()) for _ in range(2)]
        if p in ("double", "int", "float"):
            return [num() for _ in range(2)]
        if "intrusive_ptr" in p:
            return [D("number", SC, num=num())] + mats("Matrix")
        return None

    bodies = {}

    def body(f, this):
        if f["u"] not in bodies:
            try:
                bodies[f["u"]] = Body(db, f, this)
            except Undecided as u:
                bodies[f["u"]] = str(u)
        b = bodies[f["u"]]
        if isinstance(b, str):
            raise Cannot(b)
        return b

    names = {"+": "sum", "-": "difference", "*": "product", "/": "quotient"}
    for c in ("Matrix", "SymmetricMatrix"):
        cls, this = NS + c, ("this", NS + c)

        def fns(m):
            return [f for f in db.byname.get(cls + "::" + m, []) if f.get("body") and not f.get("deleted")]
        for op in "+-*/":
            for f in fns("operator" + op) + fns("operator" + op + "="):
                ps = [p["t"] for p in f["params"]]
                inplace = f["n"].endswith("=")
                if len(ps) > 1:
                    continue
                R.anchor("operations of matrix literals", 1)
                name = "%s(%s)" % (c + "::operator" + op + ("=" if inplace else ""), ps[0].split("::")[-1].rstrip(" &") if ps else "")
                cases = []
                if not ps:
                    if op != "-":
                        continue
                    for a in mats(c):
                        cases.append(("-" + tell(a), lambda a=a: body(f, this).result([a]), (a.dims, [-x for x in dense(a)])))
                    one(R, "negative of a matrix", name, f, cases)
                    continue
                ks = kinds(ps[0])
                if ks is None:
                    continue
                for a, b in itertools.product(mats(c), ks):
                    w = combine(op, a, plain(b))
                    run = (lambda a=a, b=b: body(f, this).changed([a, b])) if inplace else (lambda a=a, b=b: body(f, this).result([a, b]))
                    cases.append(("%s %s %s" % (tell(a), op, tell(plain(b))), run, w))
                one(R, "%s of matrices" % names[op], name, f, cases)
        for f in fns("transpose"):
            R.anchor("operations of matrix literals", 1)
            one(R, "transposed matrix", c + "::transpose", f, [(tell(a), lambda a=a: body(f, this).result([a]), (Sh((a.dims[0], a.dims[2], a.dims[1])), [dense(a)[i * a.dims[2] + j] for j in range(a.dims[2]) for i in range(a.dims[1])])) for a in mats(c)])
        for f in fns("operator="):
            ps = [p["t"] for p in f["params"]]
            if len(ps) == 1 and ps[0].replace("const ", "").replace("&", "").strip() == cls:
                R.anchor("operations of matrix literals", 1)
                one(R, "assignment takes over shape and elements", c + "::operator=", f, [("%s = %s" % (tell(a), tell(b)), lambda a=a, b=b: body(f, this).changed([a, b]), (b.dims, dense(b))) for a, b in itertools.product(mats(c), mats(c))])
        for f in fns(c):
            ps = [p["t"] for p in f["params"]]
            cases = []
            for s in SHAPES[c]:
                x = D(c, s, [num() for _ in range(numel(c, s))])
                if ps and ps[0].startswith("const std::vector") and len(ps) == 2:
                    cases.append(("%s of %d values" % (c, len(x.args)), lambda x=x: body(f, this).changed([None, list(x.args), x.dims]), (s, dense(x))))
                    cases.append(("%s of %d values for shape %r" % (c, len(x.args) + 1, s), lambda x=x: body(f, this).changed([None, list(x.args) + [5], x.dims]), None))
                elif ps and ps[0].startswith("const Symbolics::Shape"):
                    z = D(c, s, [0] * numel(c, s))
                    cases.append(("%s of shape %r" % (c, s), lambda s=s: body(f, this).changed([D(c, SC, [])] + [s, True][:len(ps)]), (s, dense(z))))
                elif len(ps) == 1 and ps[0].replace("const ", "").replace("&", "").strip() == cls:
                    cases.append(("copy of " + tell(x), lambda x=x: body(f, this).changed([D(c, SC, []), x]), (s, dense(x))))
            if cases:
                R.anchor("operations of matrix literals", 1)
                one(R, "constructors store shape and elements", "%s::%s(%s)" % (c, c, ", ".join(p.split("::")[-1].rstrip(" &>") for p in ps)), f, cases)
        for f in fns("getIndex"):
            R.anchor("operations of matrix literals", 1)
            cases = []
            for s in SHAPES[c]:
                x = D(c, s, list(range(numel(c, s))))
                for i in range(s[1]):
                    for j in range(s[2]):
                        cases.append(("index of element (%d,%d) of shape %r" % (i, j, s), lambda x=x, i=i, j=j: body(f, this).result([x, i, j]), (SC, [index(c, s, i, j)])))
            one(R, "elements are stored row by row", c + "::getIndex", f, cases)
        for f in fns("get") + fns("operator()"):
            n = len(f["params"])
            m = "get" if f in fns("get") else "operator()"
            R.anchor("operations of matrix literals", 1)
            cases = []
            for x in mats(c):
                if n == 2:
                    for i in range(x.dims[1]):
                        for j in range(x.dims[2]):
                            cases.append(("element (%d,%d) of %s" % (i, j, tell(x)), lambda x=x, i=i, j=j: body(f, this).result([x, i, j]), (SC, [dense(x)[i * x.dims[2] + j]])))
                    cases.append(("element (%d,0) of %s" % (x.dims[1], tell(x)), lambda x=x: body(f, this).result([x, x.dims[1], 0]), None))
                elif n == 1:
                    for i in range(len(x.args)):
                        cases.append(("element %d of %s" % (i, tell(x)), lambda x=x, i=i: body(f, this).result([x, i]), (SC, [x.args[i]])))
                    cases.append(("element %d of %s" % (len(x.args), tell(x)), lambda x=x: body(f, this).result([x, len(x.args)]), None))
            if cases:
                one(R, "access to an element", "%s::%s/%d" % (c, m, n), f, cases)
        for f in fns("set"):
            n = len(f["params"])
            R.anchor("operations of matrix literals", 1)
            cases = []
            for x in mats(c):
                v = num()
                pos = [(i, j) for i in range(x.dims[1]) for j in range(x.dims[2])] if n == 3 else [(i,) for i in range(len(x.args))]
                for p in pos:
                    a = list(x.args)
                    a[index(c, x.dims, *p) if n == 3 else p[0]] = v
                    cases.append(("element %s of %s := %d" % (p, tell(x), v), lambda x=x, p=p, v=v: body(f, this).changed([x] + list(p) + [v]), (x.dims, dense(D(c, x.dims, a)))))
                p = (x.dims[1], 0) if n == 3 else (len(x.args),)
                cases.append(("element %s of %s := %d" % (p, tell(x), v), lambda x=x, p=p, v=v: body(f, this).changed([x] + list(p) + [v]), None))
            one(R, "assignment to an element", "%s::set/%d" % (c, n), f, cases)
    for op in "+-*/":
        for c in ("Int", "Real"):
            for f in db.byname.get(NS + c + "::operator" + op, []):
                ps = [p["t"] for p in f["params"]]
                k = kinds(ps[0]) if len(ps) == 1 else None
                if not f.get("body") or k is None:
                    continue
                R.anchor("operations of numbers and expressions", 1)
                xs = kinds(NS + c)
                cases = [("%s %s %s" % (tell(plain(a)), op, tell(plain(b))), lambda a=a, b=b: body(f, ("this", NS + c)).result([a, b]), combine(op, plain(a), plain(b))) for a, b in itertools.product(xs, k)]
                one(R, "%s of numbers" % names[op], "%s::operator%s(%s)" % (c, op, ps[0].split("::")[-1].rstrip(" &>")), f, cases)
    for op in "+-*/":
        for f in db.byname.get(NS + "operator" + op, []):
            ps = [p["t"] for p in f["params"]]
            if f.get("body") and len(ps) == 1 and op == "-" and kinds(ps[0]):
                R.anchor("operations of numbers and expressions", 1)
                one(R, "negative of an expression", "operator-(%s)" % ps[0].split("::")[-1].rstrip(" &>"), f,
                    [("-" + tell(plain(a)), lambda a=a: body(f, None).result([a]), (a.dims if is_mat(a) else SC, [-x for x in dense(a)] if is_mat(a) else [-plain(a)])) for a in kinds(ps[0])])
                continue
            if not f.get("body") or len(ps) != 2:
                continue
            ka, kb = kinds(ps[0]), kinds(ps[1])
            if ka is None or kb is None:
                continue
            R.anchor("operations of matrix literals", 1)
            cases = [("%s %s %s" % (tell(plain(a)), op, tell(plain(b))), lambda a=a, b=b: body(f, None).result([a, b]), combine(op, plain(a), plain(b))) for a, b in itertools.product(ka, kb)]
            one(R, "%s of matrices" % names[op], "operator%s(%s)" % (op, ", ".join(p.split("::")[-1].rstrip(" &>") for p in ps)), f, cases)


def plain(x):
    return x.num if isinstance(x, D) and x.num is not None else x
