"""W01: every generated function places the states in y (and their derivatives in yd) the same way."""
import load
import emit
import writers as W
from emit import same, norm, I, add, sub, show
from engine import subst, contains
from report import Report

VECTOR_TARGETS = ("Python", "Matlab", "C", "CSharp", "Fortran")
B = ("bound",)


def bind(t):
    """prefix sums with their bound index renamed, so that facts about one state do not leak into them"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "psum":
        return ("PS", subst(bind(t[2]), {("idx", t[1]): B}))
    if t[0] == "total":
        return ("TOT", bind(t[2]), subst(bind(t[3]), {("idx", t[1]): B}))
    return tuple(bind(x) for x in t)


def implied(conds, x):
    """is the variable known to have one element on this path?"""
    for c in conds:
        if c[0] == "call" and c[1] == "is_Scalar" and c[2] == x:
            return True
        c = W.canon(c)
        if c in (("le", ("n1", x), I(1)), ("eq", ("n1", x), I(1)), ("lt", ("n1", x), I(2))):
            return True
    return False


def nested(evs):
    for e in evs:
        if e[0] == "loop":
            yield e
            for x in nested(e[3]):
                yield x
        elif e[0] == "if":
            for b in (e[2], e[3]):
                for x in nested(b):
                    yield x


def owncoll(e):
    """collection a loop walks: the one its own index selects from"""
    L = e[1]
    cs = []
    for x in emit.flat(e[3]):
        for t in x:
            if isinstance(t, tuple):
                for el in W.elems_in(t):
                    if contains(el[2], lambda y: y == ("idx", L)) and el[1] not in cs:
                        cs.append(el[1])
                        idx = el[2]
    return cs


def flatitems(items):
    for it in items:
        yield it


def run(prop, tier):
    R = Report("W01", tier, "positions of states are the same prefix sums of sizes in every generated function")
    db = load.DB(["core", "functions", "graph", "printer", "writer"])
    for cls in sorted(db.derived("Symbolics::Writer")):
        T = W.Target(db, cls)
        if T.entry is None or not T.files:
            continue
        fname = T.entry["file"]
        R.anchor("generated files", len(T.files))
        if T.name == "FMU":
            fmu(R, T, fname)
            continue
        orders = {}
        for f in T.files:
            layout(R, T, f, fname, orders)
        if len(orders) > 1:
            a, b = sorted(orders, key=lambda k: -len(orders[k]))[:2]
            R.bad("state-order", cls, "order", "states are ordered by %s in %s but by %s in %s" % (show_order(a), ", ".join(sorted(set(orders[a]))), show_order(b), ", ".join(sorted(set(orders[b])))), fname)
        elif orders:
            (o, fs), = orders.items()
            if o is None:
                R.undecided("state-order", cls, "order", "")
            else:
                R.ok("state-order", cls, show_order(o), "%d loops" % len(fs))
    order_of_names(R, db)
    return R.finish("Emission trees of all writers; y/yd accesses in loops over the states compared with the prefix sum of the states' sizes",
                    ["states are scalars or column vectors", "a generated file is written by the statements of its writer only"])


def show_order(o):
    return emit.show(o) if isinstance(o, tuple) else str(o) if o is not None else "order of appearance"


def order_of_names(R, db):
    fs = [f for f in db.byname.get("Symbolics::Writer::sortVariableVec", [])]
    if not fs:
        return
    fn = fs[0]
    E = emit.Emitter(db, "Symbolics::Writer", lambda f: False)
    v = None
    E.out, E.fields, E.env, E.frames = [], {}, {}, []
    try:
        v = E.call(fn, [("a",), ("b",)], 0)
    except Exception:
        pass
    strip = lambda t: t
    if v is not None and v[0] == "lt":
        pair = (v[1], v[2])
    elif v is not None and v[0] == "call" and v[1] in ("operator<",):
        pair = (v[2], v[3])
    elif v is not None and v[0] == "op" and v[1] == "<":
        pair = (v[2], v[3])
    else:
        pair = None
    mine = fn["file"]
    if pair is None:
        return R.undecided("name-order", fn["f"], "comparison", show(v) if v else "")
    has = lambda t, x: contains(t, lambda y: y == x)
    if has(pair[0], ("a",)) and has(pair[1], ("b",)):
        R.ok("name-order", fn["f"], "ascending")
    elif has(pair[0], ("b",)) and has(pair[1], ("a",)):
        R.bad("name-order", fn["f"], "ascending", "variables are sorted in descending order", mine, fn["l"])
    else:
        R.undecided("name-order", fn["f"], "comparison", show(v))


def layout(R, T, f, fname, orders):
    base = W.BASE.get(T.name)
    incl = T.name in W.INCLUSIVE
    kind = f.kind()
    reads = outs = 0
    eqpos = None
    pos = {}
    n = 0
    for e in emit.flat(f.evs):
        pos[id(e)] = n
        n += 1
        if eqpos is None and e[0] == "loop" and contains(e[2], lambda y: isinstance(y, tuple) and len(y) > 1 and y[:2] == ("call", "getEquations")):
            eqpos = pos[id(e)]
    case0 = "%s:%s" % (T.name, kind)
    for e in nested(f.evs):
        L, count, body, line = e[1], e[2], e[3], e[4]
        colls = [c for c in owncoll(e) if (W.collection(c)[2] or ()) and "STATE" in W.collection(c)[2]]
        if not colls:
            continue
        paths = W.textpaths(body)
        what = None
        for conds, items in paths:
            acc = W.accesses(items, base, incl)
            names = {a[0] for a in acc}
            if "y" in names:
                what = "read"
            elif "yd" in names:
                what = "yd"
            elif any(i[0] == "text" and i[1].endswith("der_") and k + 1 < len(items) and items[k + 1][0] == "term" for k, i in enumerate(items)) and not any(";" in i[1] or "::" in i[1] or " = " in i[1] for i in items if i[0] == "text" and i[1].strip() != ";"):
                what = what or "stack"
        prev = preceding_text(f.evs, e)
        if what is None and prev is not None and prev.rstrip().endswith("y0 = ["):
            what = "initial"
        if what is None:
            continue
        case = "%s line %s" % (case0, "loop:" + what)
        where = dict(file=fname, line=line)
        c = colls[0]
        info = W.collection(c)
        if len(colls) > 1:
            R.undecided("state-layout", T.cls, case, "several collections in one loop", **where)
            continue
        x = ("at", c, ("idx", L))
        others = [el for ev in emit.flat(body) for t in ev if isinstance(t, tuple) for el in W.elems_in(t) if el[1] == c and el[2] != ("idx", L) and contains(el[2], lambda y: y == ("idx", L))]
        if others and what != "initial":
            others = [o for o in others if not onlycompared(body, o)]
        if others:
            R.bad("state-layout", T.cls, case, "the loop visits %s instead of the state of its index" % show(others[0][2]), **where)
            continue
        if count[0] in ("unknown", "upto"):
            R.undecided("state-layout", T.cls, case, "number of rounds unknown", **where)
            continue
        if not same(W.canon(count), ("size", W.canon(c))):
            R.bad("state-range", T.cls, case, "the loop runs %s times, there are size(states) states" % show(sub(count, I(0)))[-60:], **where)
            continue
        if info[2] != frozenset(["STATE"]):
            R.bad("state-set", T.cls, case, "positions are counted over variables of category %s" % "|".join(sorted(info[2])), **where)
            continue
        if info[1] is not None and "DER_STATE" not in info[1] and info[1] != "graph":
            R.bad("state-set", T.cls, case, "positions in y are counted over the states that occur in the %s equations only, y holds all states" % "|".join(sorted(info[1])), **where)
            continue
        orders.setdefault(info[0], []).append(kind)
        if what == "initial" or what == "stack":
            good = False
            for conds, items in paths:
                ts = [i for i in items if i[0] == "term" and W.printed(i[1]) is not None]
                good = good or any(W.printed(i[1]) == x for i in ts)
                for k, i in enumerate(items):
                    if i[0] == "text" and i[1].endswith("der_") and k + 1 < len(items) and items[k + 1][0] == "term":
                        y = W.printed(items[k + 1][1])
                        if y is not None and y != x:
                            R.bad("state-layout", T.cls, case, "derivative of %s is put at the place of %s" % (show(y), show(x)), **where)
                missing = not any(W.printed(i[1]) == x for i in ts)
                if missing:
                    R.bad("state-layout", T.cls, case, "a state can be left out of the list (%s)" % "; ".join(map(show, conds))[:120], **where)
            if good:
                R.ok("state-layout", T.cls, case, **where)
            if what == "stack":
                outs += 1
                if eqpos is not None and pos.get(id(e), 0) < eqpos:
                    R.bad("output-after-equations", T.cls, case, "derivatives are returned before the equations that compute them", **where)
            continue
        exp_lo = ("PS", ("n1", ("at", W.canon(c), B)))
        for conds, items in paths:
            acc = [a for a in W.accesses(items, base, incl)]
            n1 = I(1) if implied(conds, x) else ("n1", x)
            fixn = (lambda t: norm(subst(t, {("n1", x): I(1)}))) if n1 == I(1) else norm
            pc = "%s%s" % (case, " (scalar)" if n1 == I(1) else "")
            rd = [a for a in acc if a[0] == ("y" if what == "read" else "yd")]
            if not rd and W.unused(conds, x, f):
                continue
            if not rd and W.vague(conds):
                R.undecided("state-layout", T.cls, pc, "states may be left out", **where)
                continue
            if not rd:
                R.bad("state-layout", T.cls, pc, "a state is not placed in %s (%s)" % ("y" if what == "read" else "yd", "; ".join(map(show, conds))[:100]), **where)
                continue
            bad = None
            spans = set()
            for a in rd:
                lo, hi = a[1], a[2]
                if lo is None or hi is None:
                    bad = "?"
                    break
                lo, hi = fixn(bind(W.canon(lo))), fixn(bind(W.canon(hi)))
                spans.add((lo, hi))
                if W.open_term(lo, ("varying", "unbound", "opaque", "ite", "prev")):
                    bad = "?"
                    break
                if not same(lo, exp_lo) or not same(hi, add(exp_lo, n1)):
                    bad = "%s takes the places [%s, %s), they belong to [%s, %s)" % ("the state" if what == "read" else "the derivative", short(lo), short(hi), "sum of the sizes before", "+ its size")
            if bad == "?":
                R.undecided("state-layout", T.cls, pc, "position not in closed form", **where)
                continue
            if bad:
                R.bad("state-layout", T.cls, pc, bad, **where)
                continue
            nm = names_in(items)
            wrong = [y for y in nm if y != x and W.elem(y)]
            if wrong:
                R.bad("state-layout", T.cls, pc, "the places of %s are given to %s" % (show(x), show(wrong[0])), **where)
                continue
            if x not in nm:
                R.undecided("state-layout", T.cls, pc, "name of the state not found next to its position", **where)
                continue
            if what == "yd":
                c2 = component(items, x, conds)
                if c2:
                    R.bad("state-layout", T.cls, pc, c2, **where)
                    continue
            R.ok("state-layout", T.cls, pc, "[%s, +%s)" % (short(exp_lo), short(n1)), **where)
        if what == "read":
            reads += 1
            if eqpos is not None and pos.get(id(e), 0) > eqpos:
                R.bad("states-before-equations", T.cls, case, "states are read from y after the equations that use them", **where)
        else:
            outs += 1
            if eqpos is not None and pos.get(id(e), 0) < eqpos:
                R.bad("output-after-equations", T.cls, case, "derivatives are stored before the equations that compute them", **where)
    if T.name in VECTOR_TARGETS and eqpos is not None and not kind.endswith("symbolic"):
        opq = f.unclear()
        if not reads:
            (R.undecided if opq else R.bad)("states-read", T.cls, case0, "no loop reads the states from y", file=fname, line=f.line)
        else:
            R.ok("states-read", T.cls, case0)
        if kind in ("der_state",) or not kind.startswith(("sensors", "visual")):
            if not outs:
                (R.undecided if opq else R.bad)("derivatives-returned", T.cls, case0, "no loop returns the derivatives of the states", file=fname, line=f.line)
            else:
                R.ok("derivatives-returned", T.cls, case0)
    lengths(R, T, f, fname, case0)


def lengths(R, T, f, fname, case0):
    """declared lengths of y and yd"""
    import re
    for conds, items in W.textpaths([e for e in f.evs if e[0] == "write"]):
        for i, it in enumerate(items):
            if it[0] != "term":
                continue
            t = bind(W.canon(it[1]))
            pre = items[i - 1][1] if i and items[i - 1][0] == "text" else ""
            line = pre.rsplit("\n", 1)[-1]
            post = items[i + 1][1].split("\n")[0] if i + 1 < len(items) and items[i + 1][0] == "text" else ""
            m = re.search(r"yd\s*=\s*new double\[$", line) or (re.search(r"dimension\($", line) and re.search(r"::\s*yd?\s*$", post)) or re.search(r"NUMBER_OF_STATES\s+$", line)
            if not m:
                continue
            c = "%s length of y/yd" % case0
            if W.open_term(t, ("varying", "opaque", "ite", "fld", "last")):
                R.undecided("state-length", T.cls, c, show(t)[:100], fname, it[2])
                continue
            if t[0] == "TOT" and t[1][0] == "size" and W.collection(t[1][1]) and t[2] == ("n1", ("at", t[1][1], B)) and "DER_STATE" in (W.collection(t[1][1]) or (0, (), 0))[1] and W.collection(t[1][1])[2] == frozenset(["STATE"]):
                R.ok("state-length", T.cls, c)
            else:
                R.bad("state-length", T.cls, c, "declared length is %s, not the sum of the sizes of all states" % short(t), fname, it[2])


def short(t):
    import re
    s = show(t)
    s = re.sub(r"(sorted\(func\([\w:]*\),)?getVariables\(getAssignments\(param\(g\),([A-Z_|]*),0\),STATE\)\)?", "states", s)
    return s[:120]


def onlycompared(body, el):
    return True if not any(W.printed(t) == el for ev in emit.flat(body) if ev[0] == "write" for t in emit.pieces(ev[2])) else False


def names_in(items):
    out = []
    for it in items:
        if it[0] == "term":
            y = W.printed(it[1])
            if y is not None and y not in out:
                out.append(y)
        elif it[0] == "loop":
            for c, s in W.textpaths(it[3]):
                for y in names_in(s):
                    if y not in out:
                        out.append(y)
    return [y for y in out if W.elem(y)]


def component(items, x, conds, L=None):
    """yd[..] = der_x[component]: the component is the index of the place within the state"""
    import re
    for it in items:
        if it[0] == "loop":
            for c, s in W.textpaths(it[3]):
                for k, i in enumerate(s):
                    if i[0] == "term" and W.printed(i[1]) == x:
                        nxt = s[k + 1][1] if k + 1 < len(s) and s[k + 1][0] == "text" else ""
                        if re.match(r"\s*[\[(]\s*$", nxt) and k + 2 < len(s) and s[k + 2][0] == "term":
                            t = norm(s[k + 2][1])
                            if not contains(t, lambda y: isinstance(y, tuple) and y and y[0] in ("varying", "opaque")) and not same(t, ("idx", it[1])):
                                return "component %s of the derivative is stored at place %s" % (show(t), show(("idx", it[1])))
                        elif re.match(r"\s*;", nxt) and not implied([W.canon(q) for q in c + conds], x):
                            return "a vector is stored in a single place"
    return None


def preceding_text(evs, loop, last=""):
    """text written just before a loop"""
    found = [None]

    def go(es, last):
        for e in es:
            if e is loop:
                found[0] = last
                return last
            if e[0] == "write":
                t = e[2]
                last = (last + t[1] if t[0] == "s" else "\0")[-80:]
            elif e[0] == "loop":
                go(e[3], last)
                last = "\0"
            elif e[0] == "if":
                go(e[2], last)
                go(e[3], last)
                last = "\0"
        return last
    go(evs, "")
    return found[0]


def fmu(R, T, fname):
    """value references: the derivative of a state follows the state"""
    for e in nested(T.tree):
        colls = [c for c in owncoll(e) if (W.collection(c)[2] or ()) and "STATE" in W.collection(c)[2]]
        stores = [x for x in emit.flat(e[3]) if x[0] == "store" and x[1] == ("fld", "m_valueReferences")]
        if not colls or not stores:
            continue
        c = colls[0]
        if not same(e[2], ("size", c)):
            if e[2][0] not in ("unknown", "upto"):
                R.bad("value-references", T.cls, "states", "the loop runs %s times" % show(e[2])[:80], fname, e[4])
            continue
        inner = list(nested(e[3]))
        body = inner[-1][3] if inner else e[3]
        st = [x for x in body if x[0] == "store"]
        keys = [emit.pieces(x[2]) for x in st]
        if len(keys) == 2 and keys[1][0][0] == "s" and keys[1] == keys_cat("der_", keys[0]):
            if all(x[3] == ("size", ("fld", "m_valueReferences")) for x in st):
                R.ok("value-references", T.cls, "derivative follows state", file=fname, line=e[4])
            else:
                R.undecided("value-references", T.cls, "derivative follows state", "", fname, e[4])
        elif len(keys) == 2 and keys[0] == keys_cat("der_", keys[1]):
            R.bad("value-references", T.cls, "derivative follows state", "the derivative gets the value reference before its state", fname, e[4])
        else:
            R.undecided("value-references", T.cls, "derivative follows state", "%d names per state" % len(keys), fname, e[4])
    for f in T.files:
        lengths(R, T, f, fname, "FMU:" + f.kind())


def keys_cat(p, k):
    return emit.pieces(emit.cat(emit.S(p), ("cat", tuple(k)) if len(k) > 1 else k[0]))
