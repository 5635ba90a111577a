"""Shapes: the arithmetic of class Shape and the shape every constructor records, evaluated path by
path (guards, final fields) on all small shapes.  Nothing of the library is executed."""
import itertools

import decide
import engine as EN
import sem
from decide import Cannot, D
from engine import Undecided, show
from sem import NS


class Sh(tuple):
    """(ndim, dim1, dim2)"""
    __slots__ = ()

    def __repr__(self):
        return "(%s)" % ",".join(str(x) for x in (self[1:2] if self[0] == 1 and self[2] == 1 else self[1:] if self[0] else ()))


SC = Sh((0, 1, 1))
ALL = [SC] + [Sh(x) for x in ((1, 2, 1), (1, 1, 2), (1, 3, 1), (1, 1, 3), (2, 2, 2), (2, 3, 3), (2, 2, 3), (2, 3, 2), (2, 3, 1), (2, 1, 3))]
FIELDS = ("m_ndim", "m_dim1", "m_dim2", "m_numElem")


class Thrown(Exception):
    pass


class ShEnv(decide.Env):
    def field(self, sh, name):
        if name == "m_numElem":
            return sh[1] * sh[2]
        return sh[FIELDS.index(name)]

    def shape_of(self, o):
        if isinstance(o, Sh):
            return o
        if isinstance(o, D) and isinstance(o.dims, Sh):
            return o.dims
        raise Cannot("shape")

    def seq(self, t):
        if t[0] == "param":
            v = decide.Env.ev(self, t)
            if isinstance(v, list):
                return v
        return decide.Env.seq(self, t)

    def ev(self, t):
        k = t[0]
        if k == "enum" or k == "null":
            return t[2] if k == "enum" else None
        if k == "fld":
            if t[1][0] == "fld" and t[1][1][0] == "this" and t[1][2] in ("m_arg", "m_arg1", "m_arg2") and t[2] == "m_arg":
                return self.ops[0].args[1 if t[1][2] == "m_arg2" else 0]
            o = self.ev(t[1])
            if t[2] == "m_arg" and isinstance(o, D):
                if o.cls == "object":
                    v = self.fields.get((o.fields["id"], "m_arg"))
                    if v is None:
                        raise Cannot("operand")
                    return self.ev(v)
                return o
            if t[2] == "m_shape":
                return self.shape_of(o)
            if t[2] in FIELDS:
                return self.field(self.shape_of(o), t[2])
            if t[2] == "m_value" and isinstance(o, D) and o.num is not None:
                return o.num
            if t[2] == "m_type" and isinstance(o, D):
                if o.num is not None:
                    return self.fn.enum["Type_Int"]
                return -1
        if k == "isa":
            return self.cond(t)
        if k == "new" and t[1] == NS + "Shape":
            return self.fn.world.construct([self.ev(a) for a in t[2]])
        if k == "new" and t[1] in (NS + "Int", NS + "Real") and len(t[2]) == 1:
            return D("number", SC, num=self.ev(t[2][0]))
        if k == "obj":
            h = self.heap.get(t)
            if h and h[0][0] == "ctor":
                if h[0][1] == NS + "Argument" and len(h[0][2]) == 2:
                    return self.ev(h[0][2][1])
                if h[0][1] in (NS + "Int", NS + "Real") and len(h[0][2]) == 1:
                    return D("number", SC, num=self.ev(h[0][2][0]))
            return D("object", SC, fields={"id": t})
        if k == "call" and t[1].split("::")[-1] in ("getZero", "getOne"):
            return D("number", SC, num=0 if t[1].endswith("getZero") else 1)
        return decide.Env.ev(self, t)

    def cond(self, a):
        if a[0] == "isa":
            o = self.ev(a[1])
            return isinstance(o, D) and o.num is not None
        return decide.Env.cond(self, a)

    def eq(self, a, b):
        if isinstance(a, D) or isinstance(b, D):
            return a is b or isinstance(a, D) and isinstance(b, D) and a.num is not None and a.num == b.num
        return a == b

    def lt(self, a, b):
        return a < b

    fields = heap = {}


class Body:
    """paths of one function"""

    def __init__(self, world, fn, this):
        self.world, self.fn, self.db, self.this = world, fn, world.db, this
        self.E = EN.Engine(world.db, lambda f, e: False, {})
        self.outs = self.E.run(fn, this)
        self.enum = self.E.tags

    def path(self, ops):
        for o in self.outs:
            e = ShEnv(self, ops)
            e.fields, e.heap = o.st.fields, o.st.heap
            if e.guards(o.guards):
                if o.kind == "throw":
                    raise Thrown(o.line)
                return o, e
        raise Cannot("no path applies")

    def final(self, o, e, term, old):
        """shape held by field/reference `term` at the end"""
        f = o.st.fields
        v = f.get((term, "m_shape")) if term is not None else None
        if v is not None:
            return self.overlay(o, e, v)
        return self.overlay(o, e, ("fld", term, "m_shape"), old)

    def overlay(self, o, e, v, old=None):
        f = o.st.fields
        if v[0] == "new":
            return self.world.construct([e.ev(a) for a in v[2]])
        s = old if old is not None else e.ev(v)
        n = [f.get((v, x)) for x in FIELDS]
        r = [s[i] if n[i] is None else e.ev(n[i]) for i in range(3)]
        num = n[3] is None and s[1] * s[2] or n[3] is not None and e.ev(n[3])
        if num != r[1] * r[2]:
            raise Wrong("records %s elements for dimensions %s" % (num, tuple(r[1:])), o.line)
        return Sh(r)


class Wrong(Exception):
    pass


class World:
    def __init__(self, db):
        self.db = db
        self.ctors = {}
        for f in db.byname.get(NS + "Shape::Shape", []):
            if f.get("body") and not any("Shape" in p["t"] for p in f["params"]):
                self.ctors[len(f["params"])] = Body(self, f, ("this", NS + "Shape"))
        self.bodies = {}

    def construct(self, args):
        if len(args) == 1 and isinstance(args[0], Sh):
            return args[0]
        b = self.ctors.get(len(args))
        if b is None:
            raise Cannot("constructor of Shape")
        o, e = b.path([None] + args)
        f = o.st.fields
        r = []
        for n in FIELDS:
            t = next((v for (x, k), v in f.items() if k == n), None)
            if t is None:
                raise Cannot("field " + n)
            r.append(e.ev(t))
        if r[3] != r[1] * r[2]:
            raise Wrong("records %s elements for dimensions %s" % (r[3], tuple(r[1:3])), o.line)
        return Sh(r[:3])

    def body(self, fn, this):
        k = (fn["u"], this)
        if k not in self.bodies:
            self.bodies[k] = Body(self, fn, this)
        return self.bodies[k]

    def base(self, cls, fn, ops):
        """shape set by the constructors of the base classes"""
        for i in fn.get("inits", []):
            if not i.get("base", "").startswith(NS) or i["base"] == NS + "List":
                continue
            e = i["e"]
            g = next((x for x in self.db.byname.get(i["base"] + "::" + i["base"].split("::")[-1], []) if x["u"] == e.get("u")), None)
            if g is None or not g.get("body"):
                raise Cannot("base constructor")
            a = []
            for x in e["args"]:
                x = unwrap(x)
                if x.get("d") == "param":
                    a.append(ops[1 + x["id"]])
                elif x.get("d") == "enum":
                    a.append(x["v"])
                else:
                    a.append(None)
            sub = [ops[0]] + a
            b = self.body(g, ("this", i["base"]))
            sh = self.base(cls, g, sub)
            vals = {o.st.fields.get((("this",), "m_shape")) or o.st.fields.get((b.this, "m_shape")) for o in b.outs if o.kind != "throw"}
            vals |= {v for o in b.outs if o.kind != "throw" for (t, k), v in o.st.fields.items() if k == "m_shape" and t[0] == "this"}
            vals.discard(None)
            if not vals:
                return sh
            if len(vals) > 1:
                raise Cannot("base shape")
            v = vals.pop()
            env = ShEnv(b, sub)
            if v[0] == "new":
                return self.construct([env.ev(x) for x in v[2]])
            return env.ev(v)
        return SC

    def ctor(self, cls, fn, params, args):
        """shape of the object after the constructor; args: its operands"""
        this = D(cls, SC, args if passes(fn) else ())
        ops = [this] + list(params)
        this.dims = self.base(cls, fn, ops)
        b = self.body(fn, ("this", NS + cls))
        o, e = b.path(ops)
        key = next((t for (t, k) in o.st.fields if k == "m_shape" and t[0] == "this"), None)
        if key is not None:
            return b.overlay(o, e, o.st.fields[(key, "m_shape")]), o
        key = next((t for (t, k) in o.st.fields if t[0] == "fld" and t[2] == "m_shape" and t[1][0] == "this"), None)
        if key is not None:
            return b.overlay(o, e, key, this.dims), o
        return this.dims, o


def passes(fn):
    """does the constructor hand its operands to that of the base class"""
    return any(unwrap(x).get("d") == "param" for i in fn.get("inits", []) if i.get("base", "").startswith(NS) for x in i["e"].get("args", []))


def unwrap(x):
    while x.get("k") in ("cast", "tmp", "paren", "ctor") and (x.get("e") or len(x.get("args", [])) == 1):
        x = x.get("e") or x["args"][0]
    return x


# ------------------------------------------------------------------ what the shapes should be
def add(a, b):
    if a[0] == 0:
        return b
    if b[0] == 0 or a == b:
        return a
    return None


def mul(a, b):
    if a[0] == 0:
        return b
    if b[0] == 0:
        return a
    if a[2] != b[1]:
        return None
    d = a[1], b[2]
    if d == (1, 1) and a[0] == b[0] == 1:
        return SC
    n = 2 if d[0] > 1 and d[1] > 1 or a[0] == b[0] == 2 else 1
    return Sh((n,) + d)


def fold(f, xs):
    r = SC
    for x in xs:
        r = f(r, x)
        if r is None:
            return None
    return r


def same2(a, b):
    return a if a == b else None


def powr(a):
    return a if a[0] == 0 or a[0] == 2 and a[1] == a[2] else None


def outer(a, b):
    if a[0] != 1 or b[0] != 1:
        return None
    if a[2] != 1 or b[2] != 1:
        return "any"
    return Sh((2, a[1], b[1])) if a[1] == b[1] else None


def solve(a, b):
    if a[0] == 0 and b[0] == 0:
        return "any"
    if a[1] != a[2] or b[2] != 1 or a[1] != b[1]:
        return None
    return Sh((1, b[1], 1))


def jac(a, b):
    if a[0] == 2 or b[0] != 1:
        return None
    return Sh((2, a[1] * a[2], b[1] * b[2]))


SAME = ("Abs", "Acos", "Asin", "Atan", "Cos", "Sin", "Tan", "Neg", "Sign", "Der")
UNARY = {"Transpose": lambda a: Sh((a[0], a[2], a[1])), "Scalar": lambda a: SC if a[1] == a[2] == 1 else None,
         "Skew": lambda a: Sh((2, 3, 3)) if a == (1, 3, 1) else None, "Inverse": lambda a: (a if a[1] == a[2] else "any") if a[0] == 2 else None}
BINARY = {"Equal": same2, "Less": same2, "Greater": same2, "Outer": outer, "Solve": solve, "Jacobian": jac, "Atan2": lambda a, b: SC if a[0] == b[0] == 0 else None}


def check(db, R):
    W = World(db)
    arithmetic(db, R, W)
    ctors(db, R, W)


def one(R, rule, name, fn, cases):
    """cases: (text, function computing the shape, expected)"""
    n, unk = 0, None
    for text, f, want in cases:
        if want == "any":
            continue
        line = fn["l"]
        try:
            got = f()
            if isinstance(got, tuple) and not isinstance(got, Sh):
                got, line = got
        except Thrown as t:
            got, line = None, t.args[0] or line
        except Wrong as w:
            R.bad(rule, name, "", "%s %s" % (text, w.args[0]), fn.get("file", ""), w.args[1])
            return
        except Cannot as u:
            unk = str(u)
            continue
        except (TypeError, AttributeError, KeyError, IndexError) as u:
            unk = "not modelled: %s" % u
            continue
        n += 1
        if got != want:
            R.bad(rule, name, "", "%s %s, should %s" % (text, "raises an error" if got is None else "is %r" % (got,), "raise an error" if want is None else "be %r" % (want,)), fn.get("file", ""), line)
            return
    if n == 0:
        R.undecided(rule, name, "", unk or "no cases", fn.get("file", ""), fn["l"])
    else:
        R.ok(rule, name, "", "%d combinations of shapes%s" % (n, "" if unk is None else ", others open: " + unk), fn.get("file", ""), fn["l"])


def arithmetic(db, R, W):
    for f in db.byname.get(NS + "Shape::Shape", []):
        n = len(f["params"])
        if not f.get("body") or any("Shape" in p["t"] for p in f["params"]):
            continue
        R.anchor("Shape operations", 1)
        cases = []
        for a in itertools.product((0, 1, 2, 3), repeat=n):
            nd = a[0] if n == 3 else n
            d = a[1:] if n == 3 else a
            d = tuple(d) + (1,) * (2 - len(d))
            bad = nd > 2 or 0 in d or nd == 0 and d != (1, 1) or nd == 1 and 1 not in d
            cases.append(("Shape%s" % (a,), lambda a=a: W.construct(list(a)), None if bad else Sh((nd,) + d)))
        one(R, "a shape holds its dimensions, impossible ones are rejected", "Shape::Shape", f, cases)
    pairs = list(itertools.product(ALL, ALL))

    def final(f, a, b):
        body = W.body(f, ("this", NS + "Shape"))
        o, e = body.path([a, b])
        k = [t for (t, x) in o.st.fields if t[0] == "this"]
        if o.kind == "return" and o.value is not None and o.value[0] != "this":
            return body.overlay(o, e, o.value)
        return body.overlay(o, e, k[0] if k else ("this",), a)
    for op, ref in (("+=", add), ("+", add), ("*=", mul), ("*", mul)):
        for f in db.byname.get(NS + "Shape::operator" + op, []):
            if not f.get("body"):
                continue
            R.anchor("Shape operations", 1)
            one(R, "shape of a %s" % ("sum" if "+" in op else "product"), "Shape::operator" + op, f, [("%r %s %r" % (a, op, b), lambda a=a, b=b: final(f, a, b), ref(a, b)) for a, b in pairs])

    def value(f, a, b):
        body = W.body(f, ("this", NS + "Shape"))
        o, e = body.path([a, b])
        v = e.ev(o.value)
        return (bool(v) if not isinstance(v, int) or isinstance(v, bool) else v, o.line)
    for op, ref in (("operator==", lambda a, b: a == b), ("operator!=", lambda a, b: a != b)):
        for f in db.byname.get(NS + "Shape::" + op, []):
            if f.get("body"):
                R.anchor("Shape operations", 1)
                one(R, "comparison of shapes", "Shape::" + op, f, [("%r %s %r" % (a, op[8:], b), lambda a=a, b=b: value(f, a, b), ref(a, b)) for a, b in pairs])
    for f in db.byname.get(NS + "Shape::operator<", []):
        if f.get("body"):
            R.anchor("Shape operations", 1)
            def lt(a, b):
                x, y = value(f, a, b)[0], value(f, b, a)[0]
                return x != y if a != b else not x and not y
            def tr(a, b, c):
                return not (value(f, a, b)[0] and value(f, b, c)[0]) or value(f, a, c)[0]
            one(R, "shapes are totally ordered", "Shape::operator<", f, [("order of %r and %r" % (a, b), lambda a=a, b=b: lt(a, b), True) for a, b in pairs])
            one(R, "order of shapes is transitive", "Shape::operator<", f, [("order of %r, %r and %r" % t, lambda t=t: tr(*t), True) for t in itertools.product(ALL[:8], repeat=3)])
    for m, ref in (("transpose", lambda a: Sh((a[0], a[2], a[1]))),):
        for f in db.byname.get(NS + "Shape::" + m, []):
            if f.get("body"):
                R.anchor("Shape operations", 1)
                one(R, "shape of the transpose", "Shape::" + m, f, [("%r.%s()" % (a, m), lambda a=a: final(f, a, None), ref(a)) for a in ALL])
    for m, ref in (("getNrDimensions", lambda a: a[0]), ("getNumEl", lambda a: a[1] * a[2])):
        for f in db.byname.get(NS + "Shape::" + m, []):
            if f.get("body"):
                R.anchor("Shape operations", 1)
                one(R, "what a shape tells", "Shape::" + m, f, [("%r.%s()" % (a, m), lambda a=a: value(f, a, None), ref(a)) for a in ALL])
    for f in db.byname.get(NS + "Shape::getDimension", []):
        if f.get("body"):
            R.anchor("Shape operations", 1)
            one(R, "what a shape tells", "Shape::getDimension", f, [("%r.getDimension(%d)" % (a, i), lambda a=a, i=i: value(f, a, i), a[i] if i in (1, 2) else 1) for a in ALL for i in (1, 2, 3)])


def ctors(db, R, W):
    def leaves(ss):
        return [D(None, s, key=("leaf", s, "e%d" % i)) for i, s in enumerate(ss)]

    def forms(c, n):
        """constructors of class c taking n operands or the list of them"""
        for f in db.byname.get(NS + c + "::" + c, []):
            ps = [p["t"] for p in f["params"]]
            if not f.get("body"):
                continue
            if len(ps) == 1 and "vector" in ps[0]:
                yield f, lambda xs: [list(xs)]
            elif len(ps) == n and all("intrusive_ptr" in p or p in ("int", "double", "unsigned long", "const int", "const double") for p in ps) and "intrusive_ptr" in ps[0]:
                yield f, lambda xs, ps=ps: [x if "intrusive_ptr" in p else x.num for x, p in zip(xs, ps)]

    def decide_class(c, combos, ref, n, show_=None, count=40):
        for f, pack in forms(c, n):
            R.anchor("constructors of expression classes", 1)
            cases = []
            for xs in combos:
                s = tuple(x.dims for x in xs)
                cases.append(("%s of %s" % (c, ", ".join(repr(x.dims) if x.num is None else str(x.num) for x in xs)), lambda xs=xs: flip(W.ctor(c, f, pack(xs), xs)), ref(xs)))
            one(R, "an expression records the shape of its value", c + "::" + c, f, cases)
    for c in SAME:
        decide_class(c, [leaves((a,)) for a in ALL], lambda xs: xs[0].dims, 1)
    for c, ref in UNARY.items():
        decide_class(c, [leaves((a,)) for a in ALL + [Sh((1, 1, 1)), Sh((2, 1, 1))]], lambda xs, ref=ref: ref(xs[0].dims), 1)
    for c, ref in BINARY.items():
        decide_class(c, [leaves(p) for p in itertools.product(ALL, ALL)], lambda xs, ref=ref: ref(xs[0].dims, xs[1].dims), 2)
    num = lambda v: D("number", SC, num=v)
    decide_class("Pow", [leaves((a,)) + [num(2)] for a in ALL], lambda xs: powr(xs[0].dims), 2)
    for c, f in (("Add", add), ("Mul", mul)):
        decide_class(c, [leaves(p) for p in itertools.product(ALL, ALL)], lambda xs, f=f: fold(f, [x.dims for x in xs]), 2)
        decide_class(c, [leaves(p) for p in itertools.product(ALL[:1] + ALL[3:8], repeat=3)], lambda xs, f=f: fold(f, [x.dims for x in xs]), 3)
    decide_class("If", [leaves((SC,) + p) for p in itertools.product(ALL, ALL)], lambda xs: same2(xs[1].dims, xs[2].dims), 3)
    decide_class("Element", [leaves((a,)) + [num(i), num(j)] for a in ALL[1:] for i in (0, 1, 2, 3) for j in (0, 1, 2, 3)],
                 lambda xs: SC if xs[1].num < xs[0].dims[1] and xs[2].num < xs[0].dims[2] else None, 3)
    for c in ("Matrix", "Symbol", "Zero", "Eye"):
        for f in db.byname.get(NS + c + "::" + c, []):
            ps = [p["t"] for p in f["params"]]
            k = [i for i, p in enumerate(ps) if p.startswith("const Symbolics::Shape")]
            if not k or not f.get("body"):
                continue
            R.anchor("constructors of expression classes", 1)
            cases = []
            for s in ALL:
                args = [s if i == k[0] else leaves([SC] * (s[1] * s[2])) if "vector" in p else 0 if "int" in p or "long" in p else False if p == "bool" else "x" for i, p in enumerate(ps)]
                cases.append(("%s of shape %r" % (c, s), lambda s=s, args=args: flip(W.ctor(c, f, args, args[0] if isinstance(args[0], list) else ())), s))
            one(R, "an expression records the shape it was given", c + "::" + c, f, cases)


def flip(x):
    return x[0], x[1].line
