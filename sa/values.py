"""Value obligations: on every path, the term a rewriting function returns denotes what its
specification denotes (for simplify also: what is left in the rewritten node)."""
import math
import numpy as np

import engine as EN
import sem
import cons
from engine import I, Undecided, show, showg
from sem import NS, V, Unknown, Skip


class Ob:
    """one obligation: function x path"""
    __slots__ = ("fn", "case", "status", "detail", "line", "kind")

    def __init__(self, fn, case, status, detail, line, kind):
        self.fn, self.case, self.status, self.detail, self.line, self.kind = fn, case, status, detail, line, kind


def engine_for(db, extra_opaque=None):
    op = sem.opaque if extra_opaque is None else (lambda f, e: sem.opaque(f, e) or extra_opaque(f, e))
    return EN.Engine(db, op, sem.models())


def case_of(o):
    """short, position-independent name of a path: the positive facts it assumes"""
    pos = [showg(g) for g in o.guards if g[1] and not (g[0][0] == "loop")]
    pos = [p for p in pos if "m_simplified" not in p]
    neg = "" if pos else "default"
    return (" & ".join(pos) or neg)[:200]


def this_value(w, cls, this, st):
    """value of the node after the path's updates"""
    c = cls.split("::")[-1]
    k = ("args", this)
    ops = st.heap.get(k)
    if ops is None:
        ops = (("copy", k),)
    xs = w.seq_ops(tuple(("item", x[1]) if x[0] == "item" else x for x in ops))
    if c in sem.NARY:
        return sem.NARY[c](xs)
    if c in sem.UN:
        return sem.UN[c](xs[0])
    if c in sem.BI:
        return sem.BI[c](*xs)
    if c == "If":
        return sem.ifv(*xs)
    if c == "Der":
        return V(xs[0].d)
    if c == "Element":
        f = lambda n: w.num_int(st.fields.get((this, n), ("fld", this, n)))
        return sem.elem(xs[0], f("m_row"), f("m_col"))
    raise Unknown(c)


def run_paths(db, fn, this=None, args=None, pre=None, maxstates=None):
    E = engine_for(db)
    if maxstates:
        E.MAXSTATES = maxstates
    return E, E.run(fn, this, args, pre)


def obligations(db, fn, spec_of, kind, check_this=False, seqparam=False, want=6, tries=240, scalars=False, shapes=None, setup=None):
    """decide all paths of fn; spec_of(E, this, fn) -> (world -> V)"""
    res = []
    cls = fn.get("cls")
    this = ("this", cls) if cls and not fn.get("static") else None
    try:
        E, outs = run_paths(db, fn)
    except (Undecided, RecursionError) as u:
        return [Ob(fn, "whole function", "undecided", str(u), fn["l"], kind)]
    spec = spec_of(E, this, fn)
    c0 = fn["f"].split("::")[-2]
    ints = set(("param", "p%d" % n) for n, p in enumerate(fn["params"]) if p["t"].replace("const", "").strip(" &") in ("int", "size_t", "unsigned long", "unsigned int", "long"))
    for o in outs:
        case = case_of(o)
        if o.kind == "throw":
            # raising an error on an unsupported combination changes no value
            res.append(Ob(fn, case, "raises", show(o.value)[:100], o.line, kind))
            continue
        if o.kind != "return" or o.value is None:
            res.append(Ob(fn, case, "undecided", "no value", o.line, kind))
            continue

        def mk(w):
            if seqparam:
                w._seqparams = tuple(("param", "p%d" % n) for n, p in enumerate(fn["params"]) if "vector" in p["t"])
            w.intset = ints
            w.ew = c0 in sem.ELEMENTWISE
            w.partial = fn["f"].endswith("::der") and len(fn["params"]) == 1
            if c0 == "Pow":
                w.expset = {("param", "p1"), ("arg", this, I(1))}
            if setup:
                setup(w)
        got = lambda w, o=o: w.val(o.value)
        r = sem.compare(E, o, got, spec, setup=mk, want=want, tries=tries, scalars=scalars, shapes=shapes)
        res.append(Ob(fn, case, r[0], r[1], o.line, kind))
        if check_this and this is not None:
            k = ("args", this)
            changed = o.st.heap.get(k, (("copy", k),)) not in ((("copy", k),), (("copy", ("simpargs", this)),))
            changed = changed or any(b == this and n in ("m_row", "m_col") for (b, n) in o.st.fields)
            if changed:
                g2 = lambda w, o=o: this_value(w, cls, this, o.st)
                r = sem.compare(E, o, g2, spec, setup=mk, want=want, tries=tries, scalars=scalars, shapes=shapes)
                res.append(Ob(fn, case + " [node left behind]", r[0], r[1], o.line, kind + "-self"))
    return res


# --------------------------------------------------------------------- specifications
PRINCIPAL = {"Asin": ("Sin", -math.pi / 2, math.pi / 2), "Acos": ("Cos", 0.0, math.pi), "Atan": ("Tan", -math.pi / 2, math.pi / 2)}


def principal(w, c, arg):
    """inverse functions are specified on their principal branch: f^-1(f(x)) = x for x there"""
    if c in PRINCIPAL:
        f, lo, hi = PRINCIPAL[c]
        if w.tagname(arg) == f:
            x = w.val(("arg", arg, I(0))).v
            if np.any(x.real < lo) or np.any(x.real > hi):
                raise Skip("outside the principal branch")


def spec_this(E, this, fn):
    c = fn["f"].split("::")[-2]

    def f(w):
        principal(w, c, ("arg", this, I(0)))
        return w.val(this)
    return f


def spec_this_der(E, this, fn):
    def f(w):
        v = w.val(this)
        if fn["f"].endswith("Pow::der") and not np.all(w.val(("arg", this, I(1))).d == 0):
            raise Skip("exponents are constants")
        return V(v.d)
    return f


def spec_new(E, this, fn):
    c = fn["f"].split("::")[-2]
    ps = [("param", "p%d" % n) for n in range(len(fn["params"]))]

    def f(w):
        if ps:
            principal(w, c, ps[0])
        return w.node(c, tuple(ps))
    return f


# --------------------------------------------------------------------- reporting
ASSUME = [
    "scalars commute and elementary functions are the real ones on their real domain (principal branches for inverse functions); "
    "valuations at which the original expression is undefined are not compared",
    "calls to other public factories (New, simplify, der, is_Zero ...) are used through their contracts, which are obligations of the same properties",
    "identity of two closed forms is decided by random interpretation (Schwartz-Zippel style); fixed-width integer and floating point rounding are not modelled",
    "an extracted term outside the modelled fragment is reported as undecided, never as a violation",
]


def record(R, rule, obs):
    for o in obs:
        f = o.fn["f"].replace("Symbolics::", "")
        sig = "(%s)" % ",".join(p["t"] for p in o.fn["params"]) if f.endswith("::der") else ""
        st = {"equal": "ok", "raises": "ok", "differ": "violation", "infeasible": "vacuous"}.get(o.status, "undecided")
        if st == "undecided" and "no valuation" in str(o.detail):
            st = "vacuous"
        R.ob(rule, f + sig, o.case, st, o.detail, o.fn.get("file", ""), o.line or o.fn["l"])


LOOPED = {"Add": cons.ADD, "Mul": cons.MUL}


def conservation(db, R, fn):
    """functions that rewrite their operands loop by loop (see cons.py)"""
    name = fn["f"].replace("Symbolics::", "")
    this = ("this", fn["cls"])
    try:
        E, outs = run_paths(db, fn)
        A = cons.Analysis(E, outs, fn, this, LOOPED[fn["cls"].split("::")[-1]])
        res = A.run(lambda w, st: this_value(w, fn["cls"], this, st))
    except (Undecided, RecursionError, Unknown) as u:
        R.undecided("conservation", name, "", str(u), fn.get("file", ""), fn["l"])
        return
    R.anchor("conserving loops", len(A.loops))
    for case, st, detail, line, kind in res:
        R.ob("conservation: " + kind, name, case, st, detail, fn.get("file", ""), line)


def report(db, R, kind, classes, spec, want=16, tries=240, **kw):
    for c in classes:
        fns = db.byname.get(NS + c + "::" + kind, [])
        if kind == "der" and c == "Der":
            # the partial derivative of a time derivative is a modelling convention, not calculus
            fns = [f for f in fns if not f["params"]]
        R.anchor(kind + "() overrides", len(fns))
        for fn in fns:
            if kind == "simplify" and c in LOOPED:
                conservation(db, R, fn)
                continue
            sc = kw.get("scalars", False) or (kind == "der" and c in sem.ELEMENTWISE)
            obs = obligations(db, fn, spec, kind, check_this=(kind == "simplify"), seqparam=True, want=want, tries=tries, scalars=sc)
            record(R, kind, obs)


def leaf_der(db, R):
    """numbers, zero, identity, matrices: element-wise / zero; symbols: constant kinds have derivative zero"""
    for c in ("Int", "Real", "Zero", "Eye", "Matrix"):
        for fn in db.byname.get(NS + c + "::der", []):
            record(R, "der", obligations(db, fn, spec_this_der, "der", seqparam=True))
    for fn in db.byname.get(NS + "Symbol::der", []):
        this = ("this", NS + "Symbol")
        try:
            E, outs = run_paths(db, fn)
        except (Undecided, RecursionError) as u:
            R.undecided("der", "Symbol::der", "", str(u), fn.get("file", ""), fn["l"])
            continue
        for o in outs:
            if o.kind != "return":
                continue
            partial = len(fn["params"]) == 1
            cst = any(b and a[0] == "eq" and any(x[0] == "fld" and x[2] == "m_kind" for x in a[1:]) and any(x[0] == "enum" and x[1] in ("CONSTANT", "PARAMETER") for x in a[1:]) for a, b in o.guards)
            same_ = any(b and a[0] == "deq" for a, b in o.guards)
            hd = 1.0 if partial and same_ else 0.0 if partial or cst else 0.37

            def mk(w):
                w.partial = partial
                if not partial or not same_:
                    w.alias = {}
                w.force[this] = V(np.array([[0.61 + 0j]]), np.array([[hd + 0j]]))
                if partial:
                    w.force[("param", "p0")] = V(np.array([[0.61 + 0j]])) if same_ else V(np.array([[0.9 + 0j]]))
            r = sem.compare(E, o, lambda w: w.val(o.value), lambda w: V(w.val(this).d), setup=mk, want=3, tries=12)
            record(R, "der", [Ob(fn, "symbol: " + case_of(o), r[0], r[1], o.line, "der")])


def replaced(v):
    """what stands for an operand after the replacement has been carried out in it"""
    return V(v.v * 0.9 + 0.05, v.d * 0.9 + 0.03)


# containers and operations without a model: rebuilt with the same kind around the same operands
PLAIN = ("Matrix", "SymmetricMatrix", "Jacobian", "Unknown")


def packed(xs):
    return V(np.array([[complex(x.v[0, 0]) for x in xs]]), np.array([[complex(x.d[0, 0]) for x in xs]]))


def keeps(c, t):
    """operands that are numbers or truth values by construction"""
    return t[0] == "arg" and (c == "Element" and t[2] != I(0) or c == "If" and t[2] == I(0))


REBUILD = {"subs": 2, "iterateExp": 1}
LEAVES = ("Int", "Real", "Bool", "Zero", "Eye", "Symbol")


def rebuild(db, R, method, want=16, tries=240):
    """a node rebuilt around replaced operands denotes the operation applied to the replaced operands"""
    names = sorted(set(list(sem.UN) + list(sem.BI) + list(sem.NARY) + ["If", "Element", "Der", "Matrix", "SymmetricMatrix", "Jacobian", "Unknown"] + list(LEAVES)))
    for c in names:
        cls = NS + c
        if cls not in db.records:
            continue
        fn = None
        for b in db.bases(cls):
            cand = [f for f in db.byname.get(b + "::" + method, []) if len(f["params"]) == REBUILD[method] and not f.get("static")]
            if cand:
                fn = cand[0]
                break
        if fn is None:
            continue
        R.anchor(method + "() of expression classes", 1)
        this = ("this", cls)
        name = c + "::" + method
        file = fn.get("file", "")
        E = EN.Engine(db, lambda f, e: sem.opaque(f, e) and f.split("::")[-1] != "newBasic", sem.models())
        try:
            outs = E.run(fn, this)
        except (Undecided, RecursionError) as u:
            R.undecided(method, name, "", str(u), file, fn["l"])
            continue
        own = E.class_tags(cls)
        for o in outs:
            if own and not (o.st.types.get(this, E.alltags) & own):
                continue
            case = "node of type %s" % c + ("" if case_of(o) in ("", "default") or "type(this)" in case_of(o) else " & " + case_of(o))
            if o.kind == "throw":
                w = sem.World(E, o.st, 0, [])
                loops = [g for g in o.guards if g[0][0] in ("loop", "caught")]
                rest = [g for g in o.guards if "type(this)" not in showg(g) and not any(EN.contains(g[0], lambda x: x[:1] == ("deq",)) for _ in (0,))]
                if [g for g in rest if g not in loops]:
                    R.ob(method, name, case, "undecided", "raises " + show(o.value)[:80], file, o.line)
                else:
                    R.bad(method, name, case, "raises %s: the operation cannot be rebuilt around its replaced operands" % show(o.value)[:90], file, o.line)
                continue
            if o.kind != "return" or o.value is None:
                R.undecided(method, name, case, "no value", file, o.line)
                continue
            hit = any(b and a[0] == "deq" and this in a[1:] for a, b in o.guards)

            def mk(w):
                w._seqparams = ()
                w.ew = c in sem.ELEMENTWISE
                w.operand = lambda t, v: v if keeps(c, w.canon(t)) else replaced(v)
                if c == "Element":
                    for n, f in ((1, "m_row"), (2, "m_col")):
                        w.force[("arg", this, I(n))] = V(np.array([[complex(w.num_int(("fld", this, f)))]]))
                if c == "Pow":
                    w.expset = {("arg", this, I(1))}

            def spec(w):
                if hit:
                    return w.val(("param", "p1"))
                if c in LEAVES:
                    return w.val(this)
                if c in ("Matrix", "SymmetricMatrix"):
                    m = w.val(this)
                    return replaced(V(m.v.reshape(1, -1), m.d.reshape(1, -1)))
                xs = [x if keeps(c, ("arg", this, I(n))) else replaced(x) for n, x in enumerate(w.seq(("args", this)))] if c != "Element" else [replaced(w.val(("arg", this, I(0))))]
                if c in PLAIN:
                    return packed(xs)
                if c in sem.NARY:
                    return sem.NARY[c](xs)
                if c in sem.UN:
                    return sem.UN[c](xs[0])
                if c in sem.BI:
                    return sem.BI[c](*xs)
                if c == "If":
                    return sem.ifv(*xs)
                if c == "Der":
                    return V(xs[0].d)
                if c == "Element":
                    f = lambda n: w.num_int(("fld", this, n))
                    return sem.elem(xs[0], f("m_row"), f("m_col"))
                raise Unknown(c)
            if c in PLAIN and not hit:
                t = o.value
                while t[0] == "call" and t[1].split("::")[-1] == "process_Arg" and len(t[3]) == 1:
                    t = t[3][0]
                kind = t[1].split("::")[-1] if t[0] == "new" else t[1].split("::")[-2] if t[0] == "call" and t[1].endswith("::New") else None
                parts = t[2] if t[0] == "new" else t[3] if t[0] == "call" else ()
                if kind is None:
                    R.undecided(method, name, case, "rebuilt as " + show(t)[:80], file, o.line)
                    continue
                if kind != c:
                    R.bad(method, name, case, "rebuilt as %s" % show(t)[:100], file, o.line)
                    continue
                seqs = [x for x in parts if x[0] == "seqv"] or [x for x in parts if E.is_seq(x)]
                got = (lambda w: packed(w.seq(seqs[0]))) if len(seqs) == 1 else (lambda w: packed([w.val(x) for x in parts]))
            else:
                got = lambda w: w.val(o.value)
            r = sem.compare(E, o, got, spec, setup=mk, want=want, tries=tries, scalars=c in sem.ELEMENTWISE or c in ("Jacobian", "Unknown"))
            st = {"equal": "ok", "differ": "violation", "infeasible": "vacuous"}.get(r[0], "undecided")
            R.ob(method, name, case, st, r[1], file, o.line or fn["l"])


PREDICATES = {"Util::is_Zero": "every component zero", "Util::is_One": "a one, the identity or a vector of ones"}


def predicates(db, R):
    """the predicates the rewriting rules rely on answer 'yes' only where it is true"""
    p0 = ("param", "p0")
    for name, what in PREDICATES.items():
        for fn in db.byname.get(NS + name, []):
            try:
                E, outs = run_paths(db, fn)
            except (Undecided, RecursionError) as u:
                R.undecided("predicate", name, "", str(u), fn.get("file", ""), fn["l"])
                continue
            R.anchor("predicates", 1)
            for o in outs:
                if o.kind != "return" or o.value == EN.FALSE:
                    continue
                if o.value[0] == "call" and o.value[1] == name and o.value[3] and o.value[3][0] == ("arg", p0, I(0)) and name == "Util::is_Zero":
                    g = o.guards
                    rec = True
                else:
                    rec = False
                g = o.guards if o.value == EN.TRUE or rec else o.guards + (((o.value if o.value[0] in ("deq", "eq", "lt") else ("truth", o.value)), True),)
                st, detail, n = "undecided", "no valuation", 0
                for k in range(240):
                    w = sem.World(E, o.st, k, g)
                    try:
                        if o.value[0] == "deq":
                            a, b = o.value[1:]
                            x, c = (a, b) if a[0] in ("arg", "param", "mget") else (b, a)
                            w.alias[w.canon(x)] = c
                        every(w, E, o, p0)
                        if rec:
                            w.zero.add(w.canon(("arg", p0, I(0))))
                        if w.consistent([x for x in g if x[0][0] != "loop"]) is None:
                            continue
                        v = w.val(p0).v
                    except Skip:
                        continue
                    except Unknown as u:
                        st, detail = "undecided", str(u)
                        break
                    one = 1 in v.shape and np.all(v == 1) or v.shape[0] == v.shape[1] and np.all(v == np.eye(v.shape[0]))
                    if not (np.all(v == 0) if name.endswith("Zero") else one):
                        st, detail = "violation", "%s answers yes for %s, which is not %s" % (name, sem.fmt(V(v)), what)
                        break
                    n += 1
                    st, detail = "ok", ""
                    if n > 8:
                        break
                if st == "undecided" and detail == "no valuation":
                    st = "vacuous"
                R.ob("predicate", name, case_of(o), st, detail, fn.get("file", ""), o.line)


def every(w, E, o, p0):
    """after a loop that leaves as soon as a component fails the test, every visited component passed it"""
    for l in o.st.trace:
        L = E.loops[l]
        live = [t for t in L.trans if t[3] is None]
        if len(live) != 1:
            raise Unknown("loop")
        base = w.leaf(p0).v.copy()
        for a, b in live[0][0]:
            if not (b and a[0] == "deq"):
                raise Unknown("loop test")
            x, c = (a[1], a[2]) if a[1][0] == "mget" else (a[2], a[1])
            if x[0] != "mget" or x[1] != p0:
                raise Unknown("loop test")
            w.force[p0] = V(base)
            for i in w.comp_range(L):
                w.idx[L.id] = i
                idx = [w.num_int(EN.subst(j, w.idxmap())) for j in x[2]]
                if len(idx) == 1:
                    idx = divmod(idx[0], base.shape[1])
                if not (0 <= idx[0] < base.shape[0] and 0 <= idx[1] < base.shape[1]):
                    raise Skip("index")
                base[idx[0], idx[1]] = w.val(c).v[0, 0]
            w.idx.pop(L.id, None)
            w.memo.clear()
            w.force[p0] = V(base)
