"""The methods of the Python graph object hand over to the graph what they were given."""
import engine as EN
import sem
import wrap
from decide import Cannot
from engine import Undecided
from shapes import SC, Sh
from wrap import NULL, P, Thrown, Wrong, matrix, norm, scalar, show

CONVERT = ("toBasic", "toShape", "parseKeywords")
GRAPH = ("graph",)


class GraphEnv(wrap.WrapEnv):
    answers = {}            # what the graph answers: method -> value

    def ev(self, t):
        if t == ("fld", ("param", "p0"), "m_graph") or t[0] == "out" and t[1] == "toBasic":
            return GRAPH
        if t[0] in ("deref", "ref", "addr") and len(t) == 2 and self.graphlike(t[1]):
            return GRAPH
        if t[0] == "loopval":
            return self.loopvalue(t[1], t[2])
        return wrap.WrapEnv.ev(self, t)

    def graphlike(self, t):
        try:
            return self.ev(t) is GRAPH
        except (Cannot, Undecided):
            return False

    def call(self, t):
        n = t[1].split("::")[-1]
        a = t[3]
        if n == "toBasic":
            x = self.ev(a[0])
            if x is NULL or not isinstance(x, P) or x.kind not in ("basic", "int", "float"):
                raise Thrown(0)
            return x.val
        if n == "toShape":
            x = self.ev(a[0])
            if x.kind == "int":
                return Sh((2, x.val, x.val))
            if x.kind != "tuple":
                raise Thrown(0)
            d = [v.val for v in x.val]
            return SC if not d else Sh((1, d[0], 1)) if len(d) == 1 else Sh((2, *d))
        if n == "parseKeywords":
            return ("keywords", self.ev(a[0]))
        if n == "strcmp":
            x, y = self.ev(a[0]), self.ev(a[1])
            return (x > y) - (x < y)
        if n == "PyObject_IsTrue":
            x = self.ev(a[0])
            if not isinstance(x, P) or x.kind not in ("int", "float", "none", "bool"):
                raise Cannot("truth of an object")
            return int(bool(x.val))
        if n in self.answers and "Graph" in t[1]:
            return self.answers[n]
        return wrap.WrapEnv.call(self, t)


class Method(wrap.Slot):
    def __init__(self, db, fn):
        self.db, self.fn, self.this = db, fn, None
        self.checks = False
        self.answers = {}
        self.E = EN.Engine(db, lambda f, e: f.split("::")[-1] in CONVERT or sem.opaque(f, e), wrap.models())
        self.outs = self.E.run(fn, None)
        self.enum = self.E.tags

    def env(self, fn, ops):
        e = GraphEnv(fn, ops)
        e.answers = self.answers
        return e

    def calls(self, ops, names):
        o, e = self.path(ops)
        if o.kind == "return" and o.value == ("null",):
            return None
        return o, e, [x for x in o.st.effects if x[0] == "call" and x[1].split("::")[-1] in names]


def thing(e, t):
    """value of an argument, normalised"""
    if t[0] == "seqv":
        return ("list",) + tuple(norm(x) for x in e.seq_ops(t[1]))
    if t[0] == "obj" and t in e.heap and e.heap[t][:1] == () :
        return ("list",)
    if t[0] == "obj" and t in e.heap and e.heap[t] and e.heap[t][0][0] == "ctor" and e.heap[t][0][1].endswith("::Symbol"):
        return symbol(e, e.heap[t][0][2])
    if t[0] == "new" and t[1].endswith("::Symbol"):
        return symbol(e, t[2])
    v = e.ev(t)
    if v is NULL:
        return ("py", "none")
    if v is GRAPH:
        return GRAPH
    if isinstance(v, str):
        return ("text", v)
    return norm(v)


def symbol(e, a):
    s = [e.ev(x) for x in a]
    if len(s) < 3:
        raise Cannot("symbol")
    return ("symbol", s[0], tuple(s[1]), s[2])


def say(x):
    if x is None:
        return "an error"
    if x[0] == "list":
        return "[%s]" % ", ".join(say(y) for y in x[1:])
    if x[0] in ("num", "mat"):
        return show(x)
    return str(x[1] if x[0] == "text" else x)


def judge(R, rule, name, m, names, cases, place=""):
    fn = m.fn if isinstance(m, Method) else m[0]
    if not isinstance(m, Method):
        R.undecided(rule, name, "", m[1], fn.get("file", ""), fn["l"])
        return
    done, unk = 0, None
    for text, ops, want in cases:
        try:
            r = m.calls(ops, names)
            got = None
            if r is not None:
                o, e, cs = r
                if len(cs) != 1:
                    if want is None:
                        raise Cannot("no call")
                    R.bad(rule, name, "", "%s calls %s %d times" % (text, "/".join(names), len(cs)), fn.get("file", ""), fn["l"])
                    return
                got = [thing(e, x) for x in cs[0][3]]
        except Thrown:
            got = None
        except Wrong as w:
            R.bad(rule, name, "", "%s %s" % (text, w.args[0]), fn.get("file", ""), fn["l"])
            return
        except (Cannot, Undecided) as u:
            if not isinstance(u, wrap.Left) or want is not None:
                unk = "%s: %s" % (text, u)
                continue
            got = None
        except (TypeError, AttributeError, KeyError, IndexError, ValueError) as u:
            unk = "%s: not modelled: %s" % (text, u)
            continue
        if (got is None) != (want is None) or got is not None and (len(got) < len(want) or any(w is not None and not wrap.agree(g, w) for g, w in zip(got, want))):
            R.bad(rule, name, "", "%s hands over %s, not %s" % (text, "an error" if got is None else "(%s)" % ", ".join(map(say, got)),
                  "an error" if want is None else "(%s)" % ", ".join("..." if w is None else say(w) for w in want)), fn.get("file", ""), fn["l"])
            return
        done += 1
    if done == 0:
        R.undecided(rule, name, "", unk or "no cases", fn.get("file", ""), fn["l"])
    else:
        R.ok(rule, name, "", "%d calls%s" % (done, "" if unk is None else ", others open: " + unk), fn.get("file", ""), fn["l"])


def B(v):
    return P("basic", v)


def I(v):
    return P("int", v)


TRUE, FALSE, NONE = P("bool", True), P("bool", False), P("none")
WRITERS = {"mo": "ModelicaWriter", "py": "PythonWriter", "m": "MatlabWriter", "f90": "FortranWriter", "c": "CWriter", "cs": "CSharpWriter", "fmu": "FMUWriter"}


def args(*xs):
    return [P("graph"), P("tuple", list(xs)), NULL]


def lst(*xs):
    return P("list", list(xs))


def num(v):
    return ("num", v)


def vec(*v):
    return ("mat", (1, len(v), 1), tuple(num(x) for x in v))


def mat(m, n, *v):
    return ("mat", (2, m, n), tuple(num(x) for x in v))


def equations():
    s = lambda v: B(scalar(v))
    A = B(matrix(Sh((2, 2, 2)), [31, 37, 41, 43], "Symbol"))
    vA = norm(A)
    f, t = ("bool", False), ("bool", True)
    out = []
    for flag, w, txt in (((), f, ""), ((FALSE,), f, ", False"), ((TRUE,), t, ", True")):
        out += [
            ("addEquation(x, y%s)" % txt, args(s(7), s(11), *flag), [num(7), num(11), w]),
            ("addEquation(x, 3%s)" % txt, args(s(7), I(3), *flag), [num(7), num(3), w]),
            ("addEquation(A, A%s)" % txt, args(A, A, *flag), [vA, vA, w]),
            ("addEquation(None, y%s)" % txt, args(NONE, s(11), *flag), [("py", "none"), num(11), w]),
            ("addEquation(x, [y]%s)" % txt, args(s(7), lst(s(11)), *flag), [num(7), vec(11), w]),
            ("addEquation(x, [y, z, 2]%s)" % txt, args(s(7), lst(s(11), s(13), I(2)), *flag), [num(7), vec(11, 13, 2), w]),
            ("addEquation(x, [[1, 2, 3], [4, 5, 6]]%s)" % txt, args(s(7), lst(lst(*map(s, (1, 2, 3))), lst(*map(s, (4, 5, 6)))), *flag), [num(7), mat(2, 3, 1, 2, 3, 4, 5, 6), w]),
            ("addEquation(x, [[1, 2], [3, 4], [5, 6]]%s)" % txt, args(s(7), lst(*(lst(s(i), s(i + 1)) for i in (1, 3, 5))), *flag), [num(7), mat(3, 2, 1, 2, 3, 4, 5, 6), w]),
            ("addEquation([x, y, z], A%s)" % txt, args(lst(s(7), s(11), s(13)), A, *flag), [vec(7, 11, 13), vA, w]),
            ("addEquation([x], [y]%s)" % txt, args(lst(s(7)), lst(s(11)), *flag), [("list", num(7)), ("list", num(11)), w]),
            ("addEquation([x, y, z], [1, 2, 3]%s)" % txt, args(lst(s(7), s(11), s(13)), lst(s(1), s(2), s(3)), *flag), [("list", num(7), num(11), num(13)), ("list", num(1), num(2), num(3)), w]),
        ]
    out += [
        ("addEquation([x, y], [1, 2, 3])", args(lst(s(7), s(11)), lst(s(1), s(2), s(3)), FALSE), None),
        ("addEquation([x, y, z], [1, 2])", args(lst(s(7), s(11), s(13)), lst(s(1), s(2)), FALSE), None),
        ("addEquation(x, [[1, 2], [3]])", args(s(7), lst(lst(s(1), s(2)), lst(s(3))), FALSE), None),
        ("addEquation(x, [[1], [2, 3]])", args(s(7), lst(lst(s(1)), lst(s(2), s(3))), FALSE), None),
        ("addEquation(x, [])", args(s(7), lst()), None),
        ("addEquation(x, 'a')", args(s(7), P("str", "a")), None),
        ("addEquation(x)", args(s(7)), None),
    ]
    return out


def variables():
    out = []
    for name, d, kind, init, comment in (("x", (), 1, NONE, "c"), ("v", (3,), 2, I(5), ""), ("A", (2, 3), 64, B(scalar(17)), "text"), ("z", (), 1024, I(0), "zero"), ("u", (1, 4), 256, I(-3), "u"), ("w", (3, 3), 128, B(matrix(Sh((1, 2, 1)), [3, 5])), "x")):
        sh = SC if not d else Sh((1, d[0], 1)) if len(d) == 1 else Sh((2, *d))
        w = ("py", "none") if init is NONE else norm(init)
        out.append(("addVariable(%r, %r, %d, %s, %r)" % (name, d, kind, say(w), comment), args(P("str", name), P("tuple", [I(x) for x in d]), I(kind), init, P("str", comment)),
                    [("symbol", name, tuple(sh), kind), w, ("text", comment)]))
    return out


def check(db, R):
    g = wrap.globs(db)
    e = wrap.table(g.get("CGraphObjectType")).get("tp_methods")
    table = dict(wrap.methods(db, g, wrap.refname(e).split("::")[-1])) if wrap.refname(e) else {}
    R.anchor("methods of the graph object", len(table))

    def method(n):
        fn = table.get(n)
        if fn is None:
            return None
        try:
            return Method(db, fn)
        except Undecided as u:
            return (fn, str(u))

    rule = "what the graph is handed"
    m = method("addEquation")
    if m:
        for text in ("scalars and matrices", "lists", "unsuitable arguments"):
            cs = [c for c in equations() if (c[2] is None) == (text[0] == "u") and (c[2] is None or ("[" in c[0]) == (text == "lists"))]
            judge(R, rule, "addEquation: " + text, m, ("addExpression",), cs)
    m = method("addVariable")
    if m:
        judge(R, rule, "addVariable", m, ("addSymbol",), variables())
    m = method("buildGraph")
    if m:
        judge(R, rule, "buildGraph", m, ("buildGraph",), [("buildGraph(%s)" % b.val, args(b), [("bool", b.val)]) for b in (TRUE, FALSE)])
    for n, f in (("getVariables", "getVariables"), ("getAssignments", "getAssignments")):
        m = method(n)
        if m:
            judge(R, rule, n, m, (f,), [("%s(%d)" % (n, k), args(I(k)), [num(k)]) for k in (1, 2, 64)])
    m = method("writeOutput")
    if m:
        writer(R, m)
    results(R, method)
    made(db, R, g)
    single(db, R)
    lists(db, R)
    sides(db, R, g)


def single(db, R):
    """what the conversion of one object gives"""
    rule = "conversion of one object"
    for f in db.funcs.values():
        n = f["n"].split("::")[-1]
        if n != "toBasic" or not f.get("body") or len(f["params"]) != 2:
            continue
        try:
            m = wrap.Slot(db, f)
        except Undecided as u:
            m = (f, str(u))
        A = B(matrix(Sh((2, 2, 2)), [31, 37, 41, 43], "Symbol"))
        cases = [("toBasic of an expression", [B(scalar(7)), GRAPH], num(7), False), ("toBasic of a matrix", [A, GRAPH], norm(A), False)]
        cases += [("toBasic of %d" % v, [I(v), GRAPH], num(v), False) for v in (0, 1, -1, 12345)]
        cases += [("toBasic of %s" % v, [P("float", v), GRAPH], num(v), False) for v in (0.5, -2.25)]
        cases += [("toBasic of a %s" % k, [P(k, v), GRAPH], None, False) for k, v in (("str", "a"), ("tuple", []))]
        wrap.judge(R, rule, "toBasic", m, cases)


def made(db, R, g):
    """symbols made in Python have the name and the shape given"""
    fn = wrap.target(db, wrap.table(g.get("CSymbolObjectType")).get("tp_init"))
    if fn is None:
        return
    rule = "symbols made in Python"
    try:
        m = Method(db, fn)
    except Undecided as u:
        R.undecided(rule, "CSymbol", "", str(u), fn.get("file", ""), fn["l"])
        return
    for d in (None, (), (3,), (2, 3), (3, 2)):
        sh = SC if not d else Sh((1, d[0], 1)) if len(d) == 1 else Sh((2, *d))
        a = [P("str", "x")] + ([] if d is None else [P("tuple", [I(v) for v in d])])
        text = "CSymbol('x'%s)" % ("" if d is None else ", %r" % (d,))
        try:
            o, e = m.path(args(*a))
            if o.kind != "return" or e.ev(o.value) not in (0, True):
                got = None
            else:
                v = [v for (x, k), v in o.st.fields.items() if k == "m_basic" and x == ("param", "p0")]
                if len(v) != 1:
                    raise Cannot("expression of the symbol")
                v = v[0]
                if v[0] == "obj" and v in e.heap and e.heap[v][0][0] == "ctor":
                    ct = e.heap[v][0][1:3]
                elif v[0] == "new":
                    ct = v[1:3]
                else:
                    raise Cannot("expression of the symbol")
                if ct[0].split("::")[-1] != "Symbol":
                    got = "a " + ct[0].split("::")[-1]
                else:
                    s = [e.ev(x) for x in ct[1]]
                    got = (s[0], tuple(s[1]) if len(s) > 1 else tuple(SC))
        except Thrown:
            got = None
        except (Cannot, Undecided, TypeError, AttributeError, KeyError, IndexError, ValueError) as u:
            R.undecided(rule, text, "", str(u), fn.get("file", ""), fn["l"])
            continue
        if got == ("x", tuple(sh)):
            R.ok(rule, text, "", "", fn.get("file", ""), fn["l"])
        else:
            R.bad(rule, text, "", "gives %s, not the symbol x of shape %s" % (got or "an error", tuple(sh)), fn.get("file", ""), fn["l"])


def results(R, method):
    rule = "what the graph object returns"
    m = method("getVariable")
    if isinstance(m, Method):
        asked(R, rule, "getVariable", m, "getSymbol", [("getVariable('x') of a known name", args(P("str", "x")), ("text", "x"), scalar(23), ("tuple", num(23), ("type", "CSymbolObjectType"))),
                                                       ("getVariable('y') of an unknown name", args(P("str", "y")), ("text", "y"), NULL, ("py", "none"))])
    m = method("getinitVal")
    if isinstance(m, Method):
        asked(R, rule, "getinitVal", m, "getinitVal", [("getinitVal of a set value", args(B(scalar(7))), num(7), scalar(23), ("tuple", num(23), ("type", "CBasicObjectType"))),
                                                       ("getinitVal of no value", args(B(scalar(7))), num(7), NULL, ("py", "none"))])
    m = method("getShape")
    if isinstance(m, Method):
        cs = [("getShape of a scalar", args(B(scalar(7))), ("tuple",), False)]
        for d in ((3,), (2, 3), (3, 2), (4, 4)):
            sh = Sh((1, d[0], 1)) if len(d) == 1 else Sh((2, *d))
            cs.append(("getShape of a matrix of shape %r" % (d,), args(B(matrix(sh, list(range(sh[1] * sh[2])), "Symbol"))), ("tuple",) + tuple(map(num, d)), False))
        cs.append(("getShape of a transposed vector", args(B(matrix(Sh((1, 1, 3)), [1, 2, 3], "Symbol"))), ("tuple", num(3)), False))
        wrap.judge(R, rule, "getShape", m, cs)


def asked(R, rule, name, m, fun, cases):
    fn = m.fn
    for text, ops, arg, answer, want in cases:
        m.answers = {fun: answer}
        try:
            got = m.value(ops)
            got = ("py", "none") if got is None else got
            o, e, cs = m.calls(ops, (fun,))
            given = thing(e, cs[0][3][0]) if cs else None
        except (Thrown, Wrong) as w:
            got, given = None, arg
        except (Cannot, Undecided, TypeError, AttributeError, KeyError, IndexError, ValueError) as u:
            R.undecided(rule, name, "", "%s: %s" % (text, u), fn.get("file", ""), fn["l"])
            return
        if got != want or given != arg:
            R.bad(rule, name, "", "%s gives %s" % (text, "an error" if got is None else got if got != want else "the answer for another argument"), fn.get("file", ""), fn["l"])
            return
    R.ok(rule, name, "", "%d calls" % len(cases), fn.get("file", ""), fn["l"])


def writer(R, m):
    rule = "writer chosen for the kind of output"
    fn = m.fn if isinstance(m, Method) else m[0]
    for kind, cls in sorted(WRITERS.items()) + [("xx", None)]:
        name = "%s uses %s" % (kind, cls) if cls else "unknown kind"
        if not isinstance(m, Method):
            R.undecided(rule, name, "", m[1], fn.get("file", ""), fn["l"])
            continue
        ops = args(P("str", kind), P("str", "model"), P("str", "dir"))
        ops[2] = P("dict", {})
        try:
            r = m.calls(ops, ("generateTarget",))
            if r is None:
                got = None
            else:
                o, e, cs = r
                if len(cs) != 1:
                    raise Cannot("%d outputs" % len(cs))
                x = cs[0][2]
                if x[0] == "uninit":
                    got = "uninitialised pointer"
                elif x[0] in ("inst", "new"):
                    got = x[1].split("::")[-1]
                elif x[0] == "obj" and e.heap.get(x) and e.heap[x][0][0] == "ctor":
                    got = e.heap[x][0][1].split("::")[-1]
                elif x == ("null",):
                    got = "null pointer"
                else:
                    raise Cannot("writer " + str(x)[:60])
                a = [thing(e, y) for y in cs[0][3][:2]]
                if got == cls and x[0] in ("inst", "new") and x[2] and x[2][0][0] == "call" and x[2][0][1].endswith("parseKeywords") and e.ev(x[2][0][3][0]) is not ops[2]:
                    got += " with other options"
                if got == cls and a != [("text", "model"), ("text", "dir")]:
                    got = "name %s and path %s" % tuple(map(say, a))
        except Thrown:
            got = None
        except (Cannot, Undecided, TypeError, AttributeError, KeyError, IndexError, ValueError) as u:
            R.undecided(rule, name, "", str(u), fn.get("file", ""), fn["l"])
            continue
        if got != cls:
            R.bad(rule, name, "", "writeOutput(%r, 'model', 'dir') uses %s, not %s" % (kind, got or "an error", cls or "an error"), fn.get("file", ""), fn["l"])
        else:
            R.ok(rule, name, "", "", fn.get("file", ""), fn["l"])


# ---------------------------------------------------------------- lists given back
def bare(e):
    """The expression without source positions, types and constness."""
    if isinstance(e, dict):
        return {k: bare(v) for k, v in e.items() if k not in ("l", "el", "u", "t", "q", "cls", "const", "file")}
    return [bare(x) for x in e] if isinstance(e, list) else e


def inner(e):
    """Every node below e."""
    if isinstance(e, dict):
        if "k" in e:
            yield e
        for v in e.values():
            yield from inner(v)
    elif isinstance(e, list):
        for v in e:
            yield from inner(v)


def seen(e):
    """e without implicit conversions."""
    while isinstance(e, dict) and e.get("k") in ("cast", "paren") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def offset(e, base):
    """n when e is base + n, else None."""
    e = seen(e)
    if e == base:
        return 0
    if isinstance(e, dict) and e.get("k") == "bin" and e.get("op") in ("+", "-"):
        a, b = seen(e["a"]), seen(e["b"])
        if isinstance(b, dict) and b.get("k") == "int":
            n = offset(a, base)
            return None if n is None else n + (b["v"] if e["op"] == "+" else -b["v"])
        if e["op"] == "+" and isinstance(a, dict) and a.get("k") == "int":
            n = offset(b, base)
            return None if n is None else n + a["v"]
    return None


def filled(fn, new):
    """Decide the loop that fills the list made by PyList_New(X.size()); yields (ok, text) or raises Undecided."""
    size = seen(bare(new["args"][0]))
    if size.get("k") != "call" or not size.get("f", "").endswith("::size") or "obj" not in size:
        raise Undecided("a list that is not made for a container")
    box = seen(size["obj"])
    loops = [n for n in inner(fn["body"]) if n.get("k") in ("for", "while", "do", "forrange", "rangefor")
             and any(c.get("k") == "call" and str(c.get("f", "")).endswith(("PyList_SetItem", "PyTuple_SetItem")) for c in inner(n))]
    if len(loops) != 1 or loops[0]["k"] != "for":
        raise Undecided("filled in another way")
    sets = [n for n in inner(fn["body"]) if n["k"] == "call" and str(n.get("f", "")).endswith(("PyList_SetItem", "PyTuple_SetItem", "PyList_SET_ITEM", "PyList_Append"))]
    if len(sets) != 1:
        raise Undecided("items are placed at several calls")
    f = bare(loops[0])
    init = f.get("init") or {}
    v = [x for x in init.get("v", [])] if init.get("k") == "decl" else []
    if len(v) != 1 or seen(v[0].get("i") or {}).get("k") != "int":
        raise Undecided("the start of the loop")
    start, i = seen(v[0]["i"])["v"], v[0]["id"]

    def counter(x):
        x = seen(x)
        return isinstance(x, dict) and x.get("k") == "ref" and x.get("d") == "var" and x.get("id") == i
    ref = next((n for n in inner(f.get("c")) if n.get("k") == "ref" and n.get("id") == i and n.get("d") == "var"), None)
    c = seen(f.get("c") or {})
    if ref is None or c.get("k") != "bin" or c.get("op") not in ("<", "!=", "<="):
        raise Undecided("the bound of the loop")
    stop, lead = offset(c["b"], size), offset(c["a"], ref)
    if stop is None or lead is None:
        raise Undecided("the bound of the loop")
    stop += (c["op"] == "<=") - lead
    inc = seen(f.get("inc") or {})
    if inc.get("k") == "un" and inc.get("op") == "++" and counter(inc.get("e")):
        pass
    else:
        raise Undecided("the step of the loop")
    body = f["body"]
    if any(n["k"] in ("break", "continue", "return", "goto", "throw") for n in inner(body)):
        raise Undecided("the loop ends early")
    if any(n["k"] == "un" and n.get("op") in ("++", "--") and counter(n.get("e")) or n["k"] in ("assign", "bin") and str(n.get("op", "=")).endswith("=")
           and n.get("op") not in ("==", "!=", "<=", ">=") and counter(n.get("a")) for n in inner(body)):
        raise Undecided("the counter is changed in the loop")
    put = [n for n in inner(body) if n["k"] == "call" and str(n.get("f", "")).endswith(("PyList_SetItem", "PyTuple_SetItem"))]
    got = [n for n in inner(body) if n["k"] == "call" and (n.get("op") == "[]" or str(n.get("f", "")).endswith("::at")) and seen(n.get("obj")) == box]
    if len(put) != 1 or not got:
        raise Undecided("the items of the list")

    def place(x):
        n = offset(x, ref)
        x = seen(x)
        if n is None and x.get("k") == "int":
            return "item %d each time" % x["v"]
        if n is None:
            raise Undecided("the place of an item")
        return n
    at = place(put[0]["args"][1])
    frm = {place(n["args"][0]) for n in got}
    if len(frm) != 1:
        raise Undecided("several items are read")
    frm = frm.pop()
    if isinstance(at, str):
        return "fills " + at
    if isinstance(frm, str):
        return "reads " + frm
    if start + at != 0 or stop + at != 0:
        return "fills the items from %d up to size%+d, not all" % (start + at, stop + at)
    if frm != at:
        return "item n holds element n%+d" % (frm - at)
    return ""


def lists(db, R):
    rule = "a list given back holds every element in its place"
    for fn in sorted(db.funcs.values(), key=lambda f: (f.get("file", ""), f.get("l", 0))):
        if not fn.get("body") or "/wrapper/" not in fn.get("file", ""):
            continue
        for new in [n for n in inner(fn["body"]) if n["k"] == "call" and str(n.get("f", "")).endswith(("PyList_New", "PyTuple_New"))]:
            name = fn["n"].split("::")[-1]
            try:
                wrong = filled(fn, new)
            except (Undecided, KeyError, TypeError, AttributeError, IndexError) as u:
                R.undecided(rule, name, "", str(u), fn.get("file", ""), new.get("l", fn["l"]))
                continue
            if wrong:
                R.bad(rule, name, "", "%s %s" % (name, wrong), fn.get("file", ""), new.get("l", fn["l"]))
            else:
                R.ok(rule, name, "", "", fn.get("file", ""), new.get("l", fn["l"]))


def sides(db, R, g):
    """The getters of the assignment object read the side they are named after."""
    rule = "sides of an assignment"
    e = wrap.table(g.get("CAssignmentObjectType")).get("tp_getset")
    d = g.get((wrap.refname(e) or "").split("::")[-1]) or {}
    for row in (d.get("i") or {}).get("e", []):
        if not isinstance(row, dict) or not row.get("fields"):
            continue
        x = wrap.table({"i": row, "file": d.get("file")})
        text, fn = (x.get("name") or {}).get("v"), wrap.target(db, x.get("get"))
        if text not in ("lhs", "rhs") or fn is None:
            continue
        read = {n["n"] for n in inner(fn["body"]) if n["k"] == "mem" and n.get("n") in ("lhs", "rhs")}
        if len(read) != 1:
            R.undecided(rule, text, "", "the sides are not read by name", fn.get("file", ""), fn["l"])
        elif read == {text}:
            R.ok(rule, text, "", "", fn.get("file", ""), fn["l"])
        else:
            R.bad(rule, text, "", "%s of an assignment is its %s" % (text, read.pop()), fn.get("file", ""), fn["l"])
