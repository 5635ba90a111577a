"""Comparison operators as decision functions: the paths of operator== / operator< (guards and
returned condition) are extracted from the AST and decided on every small combination of operands,
operands of operands being opaque elements of a totally ordered set (induction over the height of
the expression).  Nothing of the library is executed."""
import itertools

import engine as EN
import sem
from engine import Undecided, show
from sem import NS

MAXLOOP = 40
LEFT = ("return", "throw")


class Cannot(Exception):
    pass


class D:
    """an expression of class cls; leaves are opaque operands identified by .key"""
    __slots__ = ("cls", "dims", "args", "fields", "num", "key", "tag")

    def __init__(self, cls, dims=(), args=(), fields=None, num=None, key=None, tag=None):
        self.cls, self.dims, self.args, self.fields, self.num, self.key, self.tag = cls, dims, tuple(args), fields or {}, num, key, tag

    def __repr__(self):
        if self.cls is None:
            return str(self.key[-1])
        if self.num is not None:
            return "%s(%s)" % (self.cls, self.num)
        n = ",".join([str(v) for v in self.fields.values()] + [str(a) for a in self.args])
        return "%s(%s)%s" % (self.cls, n, "x".join(str(d) for d in self.dims))


def leaf(n, dims=()):
    return D(None, dims, key=("leaf", dims, "abcdefgh"[n] + ("" if not dims else "_")))


def number(v):
    return D(None, (), num=v, key=("num", (), v))


def sid(x):
    """identity of an expression: what it denotes, up to the order of commuting operands"""
    if isinstance(x, (int, float, bool)):
        return ("num", float(x))
    if x.cls is None:
        return ("num", float(x.num)) if x.num is not None else x.key
    c = x.cls
    if c in ("Int", "Real", "Bool"):
        return ("num", float(x.num))
    if c == "Zero":
        return ("num", 0.0) if not x.dims else ("mat", x.dims, tuple(("num", 0.0) for _ in range(numel(x.dims))))
    if c == "Eye":
        if len(x.dims) < 2:
            return ("num", 1.0)
        return ("mat", x.dims, tuple(("num", float(i == j)) for i in range(x.dims[0]) for j in range(x.dims[1])))
    if c == "Matrix":
        return ("mat", x.dims, tuple(sid(a) for a in x.args))
    a = [sid(v) for v in x.args]
    if c == "Add":
        a = sorted(a)
    if c == "Mul":
        a = sorted(s for s, v in zip(a, x.args) if not v.dims) + [s for s, v in zip(a, x.args) if v.dims]
    return (c, x.dims, tuple(sorted(x.fields.items())), tuple(a))


def same(x, y):
    """equal values; a zero or an identity compares with the number it stands for whatever its size"""
    a, b = sid(x), sid(y)
    if a == b:
        return True
    for p, q in ((x, y), (y, x)):
        if isinstance(q, D) and isinstance(p, D):
            if p.cls == "Zero" and sid(q) == ("num", 0.0) or p.cls == "Eye" and sid(q) == ("num", 1.0):
                return True
            if p.cls == "Bool" and q.num is not None:
                return bool(p.num) == bool(q.num)
            if p.cls == "Eye" and q.cls == "Matrix" and 1 in (list(q.dims) + [1])[:1] + [len(q.dims)] and all(sid(v) == ("num", 1.0) for v in q.args) and len(q.dims) == 1:
                return True          # a vector of ones is the one of vectors (tests require it)
            if p.cls == "Zero" and q.cls == "Matrix" and all(sid(v) == ("num", 0.0) for v in q.args):
                return True
    return False


def numel(d):
    n = 1
    for x in d:
        n *= x
    return n


class Fn:
    """decision function of one comparison operator"""

    less = None

    def __init__(self, db, fn, this=None):
        self.fn, self.db, self.this = fn, db, this
        op = lambda f, e: sem.opaque(f, e)
        self.E = EN.Engine(db, op, sem.models())
        self.outs = self.E.run(fn, this)
        self.enum = self.E.tags

    def __call__(self, *ops):
        """-> (value, outcome) for concrete operands"""
        env = Env(self, ops)
        for o in self.outs:
            e = Env(self, ops)
            if e.guards(o.guards):
                if o.kind == "throw":
                    return None, o
                if o.kind != "return" or o.value is None:
                    raise Cannot("no value")
                return bool(e.ev(o.value)), o
        raise Cannot("no path applies")


class Env:
    def __init__(self, fn, ops):
        self.fn, self.ops = fn, ops
        self.idx, self.phi, self.prev = {}, {}, {}
        self.final = {}

    def guards(self, gs):
        for a, b in gs:
            if a[0] == "caught":
                raise Cannot("handler")
            if a[0] == "loop":
                if self.simulate(a[1]) not in LEFT:
                    return not b
                continue
            if bool(self.cond(a)) != b:
                return False
        return True

    def cond(self, a):
        k = a[0]
        if k == "truth":
            return self.ev(a[1])
        if k == "isa":
            o = self.obj(a[1])
            c = o.tag or o.cls
            if c is None:
                raise Cannot("class of an operand")
            return (NS + c) in self.fn.db.derived(a[2])
        return self.ev(a)

    def obj(self, t):
        if t[0] == "addr" and t[1][0] == "V":
            return self.ops[-1] if self.fn.this else self.unknown(t)
        return self.ev(t)

    def unknown(self, t):
        raise Cannot(show(t)[:60])

    # -- loops
    def simulate(self, n):
        L = self.fn.E.loops[n]
        if not L.domain or L.extra:
            raise Cannot("loop")
        for key, (init, phi) in L.phis.items():
            k = L.kid[key]
            if key[0] == "H":
                self.prev[(n, k)] = self.seq_ops(init)
            else:
                try:
                    self.phi[(n, k)] = self.ev(init)
                except Cannot:
                    self.phi[(n, k)] = None
        i = self.ev(L.domain["start"])
        rounds = 0
        while i < self.ev(L.domain["stop"]):
            rounds += 1
            if rounds > MAXLOOP:
                raise Cannot("loop does not end")
            self.idx[n] = i
            for r in L.rename:
                if r[0] == "phi":
                    self.phi[(r[1], r[2])] = i
            how = None
            for t in sorted(L.trans, key=lambda t: t[3] is None):
                saved = dict(self.idx), dict(self.phi), dict(self.prev)
                if self.guards(t[0]):
                    how = t
                    break
                self.idx, self.phi, self.prev = saved
            if how is None:
                raise Cannot("no transition of the loop applies")
            if how[3] in LEFT:
                return how[3]
            new_phi, new_prev = {}, {}
            for key, (init, phi) in L.phis.items():
                k = L.kid[key]
                if k not in how[1]:
                    continue
                v = how[1][k]
                if key[0] == "H":
                    new_prev[(n, k)] = self.seq_ops(v)
                else:
                    try:
                        new_phi[(n, k)] = self.ev(v)
                    except Cannot:
                        new_phi[(n, k)] = None
            self.phi.update(new_phi)
            self.prev.update(new_prev)
            if how[3] == "break":
                break
            if how[3] not in (None, "continue"):
                raise Cannot("loop exit " + str(how[3]))
            i += L.domain["step"]
        self.idx.pop(n, None)
        return "end"

    def loopvalue(self, n, k):
        e = type(self)(self.fn, self.ops)
        e.idx, e.phi, e.prev = dict(self.idx), dict(self.phi), dict(self.prev)
        if e.simulate(n) in LEFT:
            raise Cannot("value of a loop that was left")
        if (n, k) in e.prev:
            return e.prev[(n, k)]
        v = e.phi.get((n, k))
        if v is None:
            raise Cannot("loop value")
        return v

    def seq_ops(self, ops):
        out = []
        for o in ops:
            if o[0] == "prev":
                if (o[1], o[2]) not in self.prev:
                    raise Cannot("sequence of a loop")
                out = list(self.prev[(o[1], o[2])])
            elif o[0] == "item":
                out.append(self.ev(o[1]))
            elif o[0] == "map":
                out = list(self.loopvalue(o[1], o[2]))
            elif o[0] == "erase":
                it = o[1][0]
                if it[0] != "it":
                    raise Cannot("erase")
                i = self.ev(it[2])
                if not 0 <= i < len(out):
                    raise Cannot("erase outside")
                del out[i]
            elif o[0] == "copy":
                out += self.seq(o[1])
            elif o[0] == "reserve":
                pass
            else:
                raise Cannot("sequence op " + o[0])
        return out

    def seq(self, t):
        if t[0] == "seqv":
            return self.seq_ops(t[1])
        if t[0] == "args":
            return list(self.ev(t[1]).args)
        if t[0] == "fld" and t[2] == "m_args":
            return list(self.ev(t[1]).args)
        raise Cannot("sequence " + t[0])

    # -- terms
    def dims(self, t):
        if t[0] == "shape":
            return self.ev(t[1]).dims
        if t[0] == "fld" and t[2] == "m_shape":
            return self.ev(t[1]).dims
        raise Cannot("shape " + show(t)[:40])

    def at(self, xs, i):
        if not isinstance(i, int) or not 0 <= i < len(xs):
            raise Cannot("index")
        return xs[i]

    def ev(self, t):
        k = t[0]
        if k in ("int", "real", "bool", "str"):
            return t[1]
        if k == "this":
            return self.ops[0]
        if k == "param":
            i = int(t[1][1:])
            return self.ops[i + (1 if self.fn.this else 0)]
        if k == "arg":
            return self.at(self.ev(t[1]).args, self.ev(t[2]))
        if k == "at":
            return self.at(self.seq(t[1]), self.ev(t[2]))
        if k == "mget":
            o = self.ev(t[1])
            ix = [self.ev(i) for i in t[2]]
            if len(ix) == 2:
                if not (0 <= ix[0] < dim(o.dims, 1) and 0 <= ix[1] < dim(o.dims, 2)):
                    raise Cannot("index")
                ix = [ix[0] * dim(o.dims, 2) + ix[1]]
            return self.at(o.args, ix[0])
        if k == "type":
            o = self.ev(t[1])
            if o.cls is None:
                if o.num is not None:
                    return self.fn.enum["Type_Int"]
                raise Cannot("type of an operand")
            return self.fn.enum["Type_" + (o.tag or o.cls)]
        if k == "enum":
            return t[2]
        if k == "nargs":
            return len(self.ev(t[1]).args)
        if k == "size":
            return len(self.seq(t[1]))
        if k == "num":
            o = self.ev(t[1])
            if o.num is None:
                raise Cannot("value")
            return o.num
        if k == "shape":
            return ("dims", self.ev(t[1]).dims)
        if k == "ndim":
            return len(self.dims(t[1]))
        if k == "numel":
            return numel(self.dims(t[1]))
        if k == "dim":
            return dim(self.dims(t[1]), self.ev(t[2]))
        if k == "fld":
            o = self.ev(t[1])
            if t[2] == "m_shape":
                return ("dims", o.dims)
            if t[2] == "m_type":
                return self.fn.enum["Type_" + (o.tag or o.cls)]
            if t[2] in o.fields:
                return o.fields[t[2]]
            raise Cannot("field " + t[2])
        if k == "idx":
            return self.idx[t[1]]
        if k == "phi":
            v = self.phi.get((t[1], t[2]))
            if v is None:
                raise Cannot("loop variable")
            return v
        if k == "loopval":
            return self.loopvalue(t[1], t[2])
        if k == "op":
            a = [self.ev(x) for x in t[2:]]
            if t[1] in ("+", "-", "*") and len(a) == 2:
                return a[0] + a[1] if t[1] == "+" else a[0] - a[1] if t[1] == "-" else a[0] * a[1]
            raise Cannot("op " + t[1])
        if k == "new" and t[1] in (NS + "Int", NS + "Real", NS + "Bool") and len(t[2]) == 1:
            v = self.ev(t[2][0])
            return v if isinstance(v, D) else D(t[1][len(NS):], (), num=v)
        if k in ("eq", "deq"):
            return self.eq(self.ev(t[1]), self.ev(t[2]))
        if k == "lt":
            return self.lt(self.ev(t[1]), self.ev(t[2]))
        if k == "not":
            return not self.ev(t[1])
        if k == "truth":
            return bool(self.ev(t[1]))
        if k == "call":
            name = t[1].split("::")[-1]
            if name in ("getOne", "getZero", "getMinusOne", "getTwo"):
                if "Zero::" in t[1] or t[3]:
                    return D("Zero", self.dims(t[3][0]) if t[3] else ())
                return number({"getOne": 1, "getZero": 0, "getMinusOne": -1, "getTwo": 2}[name])
            a = ([t[2]] if t[2] is not None else []) + list(t[3])
            if name in ("operator<", "operator==", "operator!=") and len(a) == 2:
                x, y = (self.ev(v) for v in a)
                return self.lt(x, y) if name == "operator<" else self.eq(x, y) if name == "operator==" else not self.eq(x, y)
        raise Cannot(show(t)[:60])

    def eq(self, a, b):
        if isinstance(a, D) or isinstance(b, D):
            return same(a, b)
        return a == b

    def lt(self, a, b):
        if isinstance(a, tuple) and a[0] == "dims":
            return (len(a[1]),) + a[1] < (len(b[1]),) + b[1]
        if isinstance(a, D) and isinstance(b, D) and getattr(self.fn, "less", None):
            return self.fn.less(a, b)[0]
        if isinstance(a, D) and isinstance(b, D):
            # operands are of a smaller height: ordered by hypothesis
            return order(a) < order(b)
        return a < b


def dim(d, k):
    return d[k - 1] if k <= len(d) else 1


def order(x):
    return (0, x.num, "") if x.num is not None else (1, 0, str(x.key if x.key is not None else (x.cls, sid(x))))


# --------------------------------------------------------------------- operands to decide on
def instances(c, db):
    a, b, d = leaf(0), leaf(1), leaf(2)
    A, B = leaf(0, (2, 2)), leaf(1, (2, 2))
    sc = [a, b, d]
    if c in sem.UN or c == "Der":
        return [D(c, dm, (x,)) for dm in ((), (2,)) for x in sc]
    if c in sem.BI or c == "Jacobian":
        return [D(c, dm, xy) for dm in ((), (2,)) for xy in itertools.product(sc[:2] if dm else sc, repeat=2)]
    if c == "Add":
        return [D(c, (), xs) for n in (1, 2, 3) for xs in itertools.product(sc[:3 if n < 3 else 2], repeat=n)]
    if c == "Mul":
        return [D(c, (), xs) for n in (1, 2) for xs in itertools.product(sc, repeat=n)] + \
               [D(c, (2, 2), xs) for n in (2, 3) for xs in itertools.product((a, b, A, B), repeat=n) if any(x.dims for x in xs)]
    if c == "If":
        return [D(c, (), xs) for xs in itertools.product(sc[:2], repeat=3)]
    if c == "Element":
        return [D(c, (), (x, number(i), number(j)), {}) for x in (leaf(0, (2, 2)), leaf(1, (2, 2))) for i in (0, 1) for j in (0, 1)]
    if c == "Unknown":
        return [D(c, (), xs, {"m_name": f}) for f in ("f", "g") for n in (1, 2) for xs in itertools.product(sc[:2], repeat=n)]
    if c == "Symbol":
        return [D(c, (), (), {"m_name": f}) for f in ("x", "y", "z")]
    if c in ("Int", "Real"):
        return [D(c, (), num=v) for v in (0, 1, -1, 2)]
    if c == "Bool":
        return [D(c, (), num=v) for v in (False, True)]
    if c == "Zero":
        return [D(c, dm) for dm in ((), (2,), (2, 2))]
    if c == "Eye":
        return [D(c, dm) for dm in ((2, 2), (3, 3))]
    if c == "Matrix":
        n0, n1 = number(0), number(1)
        out = [D(c, dm, xs) for dm in ((2,), (1, 2)) for xs in itertools.product((a, b, n0), repeat=2)]
        out += [D(c, (2, 2), xs) for xs in itertools.product((a, n0, n1), repeat=4) if xs.count(a) < 2]
        return out
    return []


CLASSES = sorted(set(list(sem.UN) + list(sem.BI) + list(sem.NARY))) + ["If", "Element", "Der", "Jacobian", "Unknown", "Symbol", "Int", "Real", "Bool", "Zero", "Eye", "Matrix"]
NUMERIC = ("Int", "Real", "Bool", "Zero", "Eye", "Matrix")


def resolve(db, c, m):
    for b in db.bases(NS + c):
        for f in db.byname.get(b + "::" + m, []):
            if len(f["params"]) == 1 and "Basic" in f["params"][0]["t"] and "Ptr" not in f["params"][0]["t"] and f.get("cls"):
                return f
    return None


def decide(db, R):
    fns = {}
    for c in CLASSES:
        if NS + c not in db.records:
            continue
        for m in ("operator==", "operator!=", "operator<"):
            f = resolve(db, c, m)
            if f is None:
                continue
            R.anchor("comparison operators of expression classes", 1)
            try:
                fns[c, m] = Fn(db, f, ("this", NS + c))
            except (Undecided, RecursionError) as u:
                R.undecided(m, c + "::" + m, "", str(u), f.get("file", ""), f["l"])
    for c in CLASSES:
        equality(db, R, fns.get((c, "operator==")), c)
        unequal(db, R, fns.get((c, "operator!=")), c)
        ordering(R, fns.get((c, "operator<")), c, db)
    for c, d in itertools.combinations(CLASSES, 2):
        mixed(R, fns.get((c, "operator<")), fns.get((d, "operator<")), c, d, db)
    free(db, R)
    return fns


def free(db, R):
    """comparison of two expression pointers: what sorting and containers call"""
    def get(m):
        for f in db.byname.get(NS + m, []):
            if f.get("body") and [("intrusive_ptr" in p["t"]) for p in f["params"]] == [True, True]:
                R.anchor("comparison operators of expression pointers", 1)
                try:
                    return Fn(db, f)
                except (Undecided, RecursionError) as u:
                    R.undecided(m, m, "", str(u), f.get("file", ""), f["l"])
        return None
    some = {c: instances(c, db) for c in CLASSES if NS + c in db.records}
    pool = [x for c in some for x in (some[c] if c in NUMERIC and c != "Matrix" else some[c][:3])]
    pairs = list(itertools.product(pool, pool))
    eq, ne, lt, gt = (get("operator" + o) for o in ("==", "!=", "<", ">"))
    if eq is not None:
        def sound(x, y):
            v, o = eq(x, y)
            if v is not None and v != same(x, y) and (v or x.dims == y.dims and (x.cls == y.cls or "Bool" not in (x.cls, y.cls))):
                return "answers %s for %s == %s" % ("yes" if v else "no", x, y), o.line
        run(R, "equal means equal", "operator==", "of expression pointers", eq, pairs, sound)
    if ne is not None:
        def told(x, y):
            v, o = ne(x, y)
            if v is not None and v == same(x, y) and (not v or x.dims == y.dims and (x.cls == y.cls or "Bool" not in (x.cls, y.cls))):
                return "answers %s for %s != %s" % ("yes" if v else "no", x, y), o.line
        run(R, "different expressions differ", "operator!=", "of expression pointers", ne, pairs, told)
    if lt is not None:
        def strict(x, y):
            v, o = lt(x, y)
            w, _ = lt(y, x)
            if v and w:
                return "%s < %s and %s < %s" % (x, y, y, x), o.line
        run(R, "order is strict", "operator<", "of expression pointers", lt, pairs, strict)
        def total(x, y):
            v, o = lt(x, y)
            w, _ = lt(y, x)
            if v is False and w is False and not same(x, y):
                return "neither %s < %s nor %s < %s: sorting and containers take them for one" % (x, y, y, x), o.line
        run(R, "different expressions are ordered", "operator<", "of expression pointers", lt, pairs, total)
        few = [x for x in pool if x.cls in NUMERIC] + [some[c][0] for c in ("Symbol", "Add", "Sin") if some.get(c)]
        known = {}
        def less(x, y):
            k = id(x), id(y)
            if k not in known:
                known[k] = lt(x, y)[0]
            return known[k]
        def trans(p, z):
            x, y = p
            if less(x, y) and less(y, z) and not less(x, z):
                return "%s < %s < %s but not %s < %s" % (x, y, z, x, z), None
        run(R, "order is transitive", "operator<", "of expression pointers", lt, [((x, y), z) for x, y, z in itertools.product(few, few, few)], trans)
    for o in ("==", "!="):
        for f in db.byname.get(NS + "operator" + o, []):
            ts = [p["t"].replace("const ", "").replace("&", "").strip() for p in f["params"]]
            if not f.get("body") or len(ts) != 2 or all("intrusive_ptr" in t for t in ts):
                continue
            cs = [None if "intrusive_ptr" in t else t for t in ts]
            xs = [pool if c is None else [x.num for x in some["Int"]] if c in ("int", "double") else some.get(c[len(NS):]) for c in cs]
            if None in xs:
                continue
            R.anchor("comparison operators of expression pointers", 1)
            try:
                g = Fn(db, f)
            except (Undecided, RecursionError) as u:
                R.undecided("operator" + o, o, "", str(u), f.get("file", ""), f["l"])
                continue
            wrap = lambda v, c: D({"int": "Int", "double": "Real"}[c], (), num=v) if c in ("int", "double") else v
            def truth(x, y, g=g, cs=cs, o=o):
                v, out = g(x, y)
                x, y = wrap(x, cs[0]), wrap(y, cs[1])
                if o == "!=":
                    v = None if v is None else not v
                if v and not same(x, y):
                    return "answers %s for %s %s %s" % ("yes" if o == "==" else "no", x, o, y), out.line
                if v is False and x.cls == y.cls and sid(x) == sid(y):
                    return "answers %s for %s %s %s" % ("no" if o == "==" else "yes", x, o, y), out.line
            run(R, "equal means equal" if o == "==" else "different expressions differ", "operator" + o, "of (%s)" % ", ".join("expression" if c is None else c.split("::")[-1] for c in cs), g,
                list(itertools.product(*xs)), truth)
    if lt is not None and gt is not None:
        gt.less = lt
        def mirror(x, y):
            v, o = gt(x, y)
            w, _ = lt(y, x)
            if v is not None and w is not None and v != w and not same(x, y):
                return "%s > %s is %s, %s < %s is %s" % (x, y, v, y, x, w), o.line
        run(R, "greater is less the other way round", "operator>", "of expression pointers", gt, pairs, mirror)


def run(R, rule, name, case, f, pairs, judge):
    """judge(x, y, call) -> text of the violation or None"""
    n, unk = 0, None
    for x, y in pairs:
        try:
            t = judge(x, y)
        except Cannot as u:
            unk = str(u)
            continue
        except (TypeError, AttributeError, KeyError, IndexError) as u:
            unk = "not modelled: " + str(u)
            continue
        n += 1
        if t:
            R.bad(rule, name, case, t[0], f.fn.get("file", ""), t[1] or f.fn["l"])
            return
    if n == 0:
        R.undecided(rule, name, case, unk or "no operands", f.fn.get("file", ""), f.fn["l"])
    else:
        R.ok(rule, name, case, "%d combinations of operands%s" % (n, "" if unk is None else ", others open: " + unk), f.fn.get("file", ""), f.fn["l"])


def equality(db, R, f, c):
    if f is None:
        return
    name = c + "::operator=="
    xs = instances(c, db)
    def sound(x, y):
        v, o = f(x, y)
        if v and not same(x, y):
            return "answers yes for %s == %s" % (x, y), o.line
    run(R, "equal means equal", name, "operands of class " + c, f, list(itertools.product(xs, xs)), sound)
    def refl(x, y):
        v, o = f(x, y)
        if v is False and x.cls == y.cls and sid(x) == sid(y):
            return "answers no for %s == %s" % (x, y), o.line
    run(R, "an expression equals itself", name, "", f, [(x, x) for x in xs], refl)
    others = [d for d in CLASSES if d != c and (c in NUMERIC or d in NUMERIC or d == CLASSES[(CLASSES.index(c) + 1) % len(CLASSES)])]
    for d in others:
        run(R, "equal means equal", name, "against operands of class " + d, f, list(itertools.product(xs, instances(d, db))), sound)


def unequal(db, R, f, c):
    if f is None:
        return
    name = c + "::operator!="
    xs = instances(c, db)
    def refl(x, y):
        v, o = f(x, y)
        if v is True and sid(x) == sid(y) and x.cls == y.cls:
            return "answers yes for %s != %s" % (x, y), o.line
    def told(x, y):
        v, o = f(x, y)
        if v is False and not same(x, y):
            return "answers no for %s != %s" % (x, y), o.line
    run(R, "an expression does not differ from itself", name, "", f, [(x, x) for x in xs], refl)
    others = [d for d in CLASSES if d == c or c in NUMERIC or d in NUMERIC or d == CLASSES[(CLASSES.index(c) + 1) % len(CLASSES)]]
    for d in others:
        run(R, "different expressions differ", name, "operands of class " + c if c == d else "against operands of class " + d, f, list(itertools.product(xs, instances(d, db))), told)


def mixed(R, f, g, c, d, db):
    """order between expressions of two classes"""
    if f is None or g is None:
        return
    name = c + "::operator<"
    def strict(x, y):
        v, o = f(x, y)
        w, _ = g(y, x)
        if v and w:
            return "%s < %s and %s < %s" % (x, y, y, x), o.line
    def total(x, y):
        v, o = f(x, y)
        w, _ = g(y, x)
        if v is False and w is False and not same(x, y):
            return "neither %s < %s nor %s < %s: containers keyed by expressions take them for one" % (x, y, y, x), o.line
    pairs = list(itertools.product(instances(c, db)[:40], instances(d, db)[:40]))
    run(R, "order is strict", name, "against " + d + "::operator<", f, pairs, strict)
    run(R, "different expressions are ordered", name, "against " + d + "::operator<", f, pairs, total)


def ordering(R, f, c, db):
    if f is None:
        return
    name = c + "::operator<"
    xs = instances(c, db)
    def strict(x, y):
        v, o = f(x, y)
        w, _ = f(y, x)
        if v and w:
            return "%s < %s and %s < %s" % (x, y, y, x), o.line
    run(R, "order is strict", name, "", f, list(itertools.product(xs, xs)), strict)
    def total(x, y):
        v, o = f(x, y)
        w, _ = f(y, x)
        if v is False and w is False and sid(x) != sid(y):
            return "neither %s < %s nor %s < %s: containers keyed by expressions take them for one" % (x, y, y, x), o.line
    run(R, "different expressions are ordered", name, "", f, list(itertools.product(xs, xs)), total)
    ys = xs[:9]
    tri = list(itertools.product(ys, ys, ys))
    def trans(p, z):
        x, y = p
        if f(x, y)[0] and f(y, z)[0] and not f(x, z)[0]:
            return "%s < %s < %s but not %s < %s" % (x, y, z, x, z), None
    run(R, "order is transitive", name, "", f, [((x, y), z) for x, y, z in tri], trans)
