"""W02: generated files are complete: every equation, definition and declaration is there, once, in order."""
import re
import load
import emit
import writers as W
import printers as PR
from emit import same, norm, I, add, sub, show
from engine import subst, contains
from report import Report
from checks.W01 import nested, owncoll, onlycompared

DECLARED = {"C": 1, "CSharp": 1, "Fortran": 1, "Modelica": 1, "FMU": 1}
CONTROLLED = ("Python", "C")


def run(prop, tier):
    R = Report("W02", tier, "every equation, definition, declaration and result is written, in order")
    db = load.DB(["core", "functions", "graph", "printer", "writer"])
    for cls in sorted(db.derived("Symbolics::Writer")):
        T = W.Target(db, cls)
        if T.entry is None or not T.files:
            continue
        R.anchor("generated files", len(T.files))
        everywhere = []
        for f in T.files:
            everywhere += declared(f, None)
        for e in nested(T.tree):
            # names may also be recorded in tables (FMU value references)
            if any(x[0] == "store" for x in emit.flat(e[3])):
                for c in owncoll(e):
                    everywhere.append((W.collection(c)[2] or frozenset(), W.collection(c)[1]))
        for f in T.files:
            ranges(R, T, f)
            equations(R, T, f, everywhere)
            errors(R, T, f)
    imports(R, db)
    return R.finish("Emission trees of all writers: the loop over the equations, the loops that define or declare the categories it leaves out, and the loops that return results",
                    ["Graph::Assignments::getVariables/getEquations partition the symbols and equations by category", "order of the equations is a topological order (G01)"], min_ok=100)


def where(T, line):
    return dict(file=T.entry["file"], line=line)


def eqloops(f):
    for e in nested(f.evs):
        c = e[2]
        if contains(c, lambda y: isinstance(y, tuple) and y[:2] == ("call", "getEquations")) and not any(contains(x[2], lambda y: isinstance(y, tuple) and y[:2] == ("call", "getEquations")) and any(z is e for z in emit.flat(x[3])) for x in nested(f.evs) if x is not e):
            yield e


def find(t, name):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x[:2] == ("call", name) and x not in out:
                out.append(x)
            for y in x:
                go(y)
    go(t)
    return out


def order(f):
    return {id(e): n for n, e in enumerate(emit.flat(f.evs))}


def ranges(R, T, f):
    """loops over variables visit each of them and write it"""
    seen = {}
    for e in nested(f.evs):
        L, count, body, line = e[1:5]
        for c in owncoll(e):
            info = W.collection(c)
            cats = "|".join(sorted(info[2] or ("?",)))
            k = (cats,)
            seen[k] = seen.get(k, 0) + 1
            case = "%s:%s %s #%d" % (T.name, f.kind(), cats, seen[k])
            x = ("at", c, ("idx", L))
            used = [el for ev in emit.flat(body) if ev[0] == "write" for t in emit.pieces(ev[2]) for el in W.elems_in(t) if el[1] == c]
            if not used:
                continue
            if not any(el == x for el in used):
                R.bad("visits-each", T.cls, case, "the loop writes %s, not the variable of its index" % show(used[0][2]), **where(T, line))
                continue
            if count[0] in ("unknown", "upto"):
                R.undecided("visits-each", T.cls, case, "number of rounds", **where(T, line))
                continue
            if not same(count, ("size", c)):
                if contains(count, lambda y: y == ("size", c)) or count[0] == "int":
                    R.bad("visits-each", T.cls, case, "%s rounds for %s variables" % (W_short(count), "size"), **where(T, line))
                else:
                    R.undecided("visits-each", T.cls, case, W_short(count), **where(T, line))
                continue
            bad, vague = None, False
            for conds, items in W.textpaths(body):
                if not mentions(items, x) and not W.unused(conds, x, f):
                    if re.search(r"\w", alltext(items)):
                        continue
                    if info[2] == frozenset(["SENSOR_VISUAL"]) and any(q[:3] == ("call", "is_Scalar", x) for q in W.conjuncts(conds)):
                        continue  # positions and orientations of bodies are never scalars
                    if W.vague(conds):
                        vague = True
                        continue
                    bad = "; ".join(map(show, conds))[:100]
            if bad is not None:
                R.bad("visits-each", T.cls, case, "a variable is left out when %s" % (bad or "always"), **where(T, line))
            elif vague:
                R.undecided("visits-each", T.cls, case, "variables may be left out", **where(T, line))
            else:
                R.ok("visits-each", T.cls, case, **where(T, line))


def alltext(items):
    return "".join(it[1] if it[0] == "text" else "" if it[0] == "term" else "".join(alltext(s) for c, s in W.textpaths(it[3])) for it in items)


def W_short(t):
    return re.sub(r"(sorted\(func\([\w:]*\),)?getVariables\(getAssignments\(param\(g\),([A-Z_|]*),0\),([A-Z_|]*)\)\)?", r"\3", show(t))[:100]


def mentions(items, x):
    for it in items:
        if it[0] == "term" and contains(it[1], lambda y: y == x):
            return True
        if it[0] == "loop" and any(mentions(s, x) for c, s in W.textpaths(it[3])):
            return True
    return False


def declared(f, before):
    """(categories, kind) of variables whose names are written before a position"""
    out = []
    pos = order(f)
    for e in nested(f.evs):
        if before is not None and pos[id(e)] >= before:
            continue
        for c in owncoll(e):
            x = ("at", c, ("idx", e[1]))
            ps = [p for p in W.textpaths(e[3]) if not W.unused(p[0], x, f)]
            if ps and all(any_printed(items, x) for conds, items in ps):
                info = W.collection(c)
                if same(e[2], ("size", c)) or ranged(e[2], c):
                    out.append((info[2] or frozenset(), info[1]))
                elif contains(e[2], lambda y: y == c) and e[2][0] not in ("unknown", "upto"):
                    continue
                else:
                    out.append((info[2] or frozenset(), None))
    return out


def ranged(n, c):
    """number of rounds of a loop from begin() to end()"""
    return n[0] == "size" and same(n[1], c)


def any_printed(items, x):
    for it in items:
        if it[0] == "term" and W.printed(it[1]) is not None and contains(W.printed(it[1]), lambda y: y == x):
            return True
        if it[0] == "loop" and any(any_printed(s, x) for c, s in W.textpaths(it[3])):
            return True
    return False


def covers(k, need):
    return k == "graph" or (k is not None and need is not None and need <= k)


def equations(R, T, f, everywhere):
    pos = order(f)
    kind = f.kind()
    case0 = "%s:%s" % (T.name, kind)
    loops = list(eqloops(f))
    unclear = f.unclear()
    if not loops:
        if re.search(r"\*\.(mo|c)$|_(der_state|sensors|visual)(_symbolic)?\.\w+$", f.suffix):
            asks = any(True for ev in emit.flat(f.raw) for t in ev if isinstance(t, tuple) and find(t, "getEquations"))
            (R.undecided if unclear or asks else R.bad)("equations", T.cls, case0, "no loop writes the equations", **where(T, f.line))
        return
    if len(loops) > 1:
        R.undecided("equations", T.cls, case0, "%d loops over equations" % len(loops), **where(T, f.line))
        return
    e = loops[0]
    E = find(e[2], "getEquations")[0]
    R.anchor("equation loops", 1)
    M = emit.mask(E[3]) if len(E) > 3 and E[3] != I(0) else frozenset()
    src = E[2]
    need = W.surely(src[3]) if src[:2] == ("call", "getAssignments") and len(src) > 3 else None
    if e[2][0] in ("unknown", "upto"):
        R.undecided("equations", T.cls, case0 + " all", "number of rounds", **where(T, e[4]))
    elif not same(e[2], ("size", E)):
        R.bad("equations", T.cls, case0 + " all", "%s of the equations are written" % W_short(e[2]), **where(T, e[4]))
    else:
        R.ok("equations", T.cls, case0 + " all")
    pairs(R, T, f, case0, e, E)
    # the right equations for the file
    want = {"der_state": "DER_STATE", "sensors": "SENSOR", "visual": "SENSOR_VISUAL", "der_state_symbolic": "DER_STATE", "sensors_symbolic": "SENSOR"}.get(kind, "DER_STATE")
    if need is not None:
        if want in need:
            R.ok("equation-kind", T.cls, case0, "|".join(sorted(need)))
        else:
            R.bad("equation-kind", T.cls, case0, "the file is built from the %s equations" % "|".join(sorted(need)), **where(T, e[4]))
    if M is None:
        R.undecided("left-out", T.cls, case0, "categories left out", **where(T, e[4]))
        return
    before = declared(f, pos[id(e)])
    fragment = f.suffix.endswith("*.c") and T.name == "C"  # pasted into a function of the user
    cats = set(M) | ({"PARAMETER", "CONSTANT"} if fragment else {"PARAMETER", "CONSTANT", "INPUT"})
    if T.name in CONTROLLED and kind not in ("visual", "sensors") and not fragment:
        cats.add("CONTROLLER")
    for c in sorted(cats):
        if c not in ("PARAMETER", "CONSTANT", "INPUT", "CONTROLLER"):
            if afterwards(f, pos, e, c, src):
                R.ok("left-out", T.cls, "%s %s" % (case0, c), "defined after the equations by getEquation")
                continue
            if fragment and c == "CONTROLLER":
                continue
            R.bad("left-out", T.cls, "%s %s" % (case0, c), "equations of category %s are left out" % c, **where(T, e[4]))
            continue
        if c == "CONTROLLER" and T.name not in CONTROLLED or fragment and c in ("INPUT", "CONTROLLER"):
            continue
        if c not in M and c in ("PARAMETER", "CONSTANT"):
            R.ok("defined", T.cls, "%s %s" % (case0, c), "by its equation")
            continue
        have = [d for d in before if c in d[0] and covers(d[1], need)]
        if have:
            R.ok("defined", T.cls, "%s %s" % (case0, c))
        elif [d for d in everywhere if c in d[0] and covers(d[1], need)] and T.name == "FMU":
            R.ok("defined", T.cls, "%s %s" % (case0, c))
        elif any(c in d[0] for d in before) and need is None or unclear:
            R.undecided("defined", T.cls, "%s %s" % (case0, c), "", **where(T, e[4]))
        else:
            R.bad("defined", T.cls, "%s %s" % (case0, c), "no loop before the equations defines the variables of category %s, whose equations are not written" % c, **where(T, e[4]))
    values(R, T, f, case0, pos, pos[id(e)])
    if T.name in DECLARED:
        scope = before if T.name != "FMU" else before + everywhere
        for c in ("VARIABLE", "STATE", "SENSOR", "SENSOR_VISUAL", "USER_EXP"):
            if fragment and c in ("SENSOR", "SENSOR_VISUAL"):
                continue  # results, declared where the fragment is pasted
            have = [d for d in scope if c in d[0]]
            if any(covers(d[1], need) or c == "STATE" and d[1] and "DER_STATE" in d[1] for d in have):
                R.ok("declared", T.cls, "%s %s" % (case0, c))
            elif unclear or have and need is None or any(d[1] is None for d in have):
                R.undecided("declared", T.cls, "%s %s" % (case0, c), "", **where(T, e[4]))
            else:
                R.bad("declared", T.cls, "%s %s" % (case0, c), "variables of category %s are not declared" % c, **where(T, e[4]))
    if T.name in ("Python", "Matlab") and kind in ("sensors", "visual"):
        c = {"sensors": "SENSOR", "visual": "SENSOR_VISUAL"}[kind]
        after = [x for x in nested(f.evs) if pos[id(x)] > pos[id(e)] and not any(z is x for z in emit.flat(e[3])) and any(c in (W.collection(q)[2] or ()) for q in owncoll(x))]
        got = False
        for x in after:
            col = [q for q in owncoll(x) if c in W.collection(q)[2]][0]
            el = ("at", col, ("idx", x[1]))
            for conds, items in W.textpaths(x[3]):
                ps = [W.printed(i[1]) for i in items if i[0] == "term" and W.printed(i[1]) is not None]
                if len(ps) >= 2 and all(p == el for p in ps[:2]):
                    got = True
                elif len(ps) >= 2 and ps[0] != ps[1]:
                    R.bad("results", T.cls, case0, "%s is returned under the name %s" % (show(ps[1])[-60:], show(ps[0])[-60:]), **where(T, x[4]))
                    got = True
        if got:
            R.ok("results", T.cls, case0)
        else:
            (R.undecided if unclear else R.bad)("results", T.cls, case0, "no loop after the equations returns the %s values" % c, **where(T, e[4]))
    pre = "".join(x[2][1] if x[2][0] == "s" else "\0" for x in emit.flat(f.evs) if x[0] == "write" and pos[id(x)] < pos[id(e)])
    if T.name not in ("Modelica", "FMU"):
        if re.search(r"\btime\b", pre) or kind == "*.c":
            R.ok("defined", T.cls, case0 + " time")
        else:
            R.bad("defined", T.cls, case0 + " time", "the time is neither an argument nor defined", **where(T, e[4]))


def afterwards(f, pos, e, c, src):
    """all variables of a category get their equation after the loop over the equations"""
    for l in nested(f.evs):
        if pos[id(l)] < pos[id(e)] or any(z is l for z in emit.flat(e[3])):
            continue
        for q in owncoll(l):
            if W.collection(q)[2] != frozenset([c]) or not same(l[2], ("size", q)):
                continue
            x = ("at", q, ("idx", l[1]))
            ps = W.textpaths(l[3])
            if ps and all(any(it[0] == "term" and any(g[-1] == x and (g[2] == src or g[2][0] == "param") for g in find(it[1], "getEquation")) for it in items) for conds, items in ps):
                return True
    return False


def values(R, T, f, case0, pos, eq):
    """x = <equation of x>"""
    n = 0
    for e in nested(f.evs):
        if pos[id(e)] > eq:
            continue
        for c in owncoll(e):
            x = ("at", c, ("idx", e[1]))
            for conds, items in W.textpaths(e[3]):
                for i, it in enumerate(items):
                    if it[0] != "term" or it[1][:2] != ("call", "print"):
                        continue
                    for g in ("getEquation", "getinitVal"):
                        for q in find(it[1], g):
                            n += 1
                            case = "%s %s %s#%d" % (case0, "|".join(sorted(W.collection(c)[2] or ())), g, n)
                            names = [W.printed(j[1]) for j in items[:i] if j[0] == "term" and W.printed(j[1]) is not None and W.elem(W.printed(j[1]))]
                            if q[-1] == x and names and all(y == x for y in names):
                                R.ok("value", T.cls, case)
                            elif W.elem(q[-1]) and names and q[-1] != names[-1]:
                                R.bad("value", T.cls, case, "%s gets the value of %s" % (W_short(names[-1]), W_short(q[-1])), **where(T, e[4]))
                            else:
                                R.undecided("value", T.cls, case, "", **where(T, e[4]))


def pairs(R, T, f, case0, e, E):
    """lhs[i] = rhs[i] of the same equation, element by element"""
    A = ("at", E, ("idx", e[1]))
    inner = [x for x in e[3] if x[0] == "loop"] + [x for y in e[3] if y[0] == "if" for b in (y[2], y[3]) for x in b if x[0] == "loop"]
    if len(inner) != 1:
        R.undecided("equation-pairs", T.cls, case0, "%d loops over the sides of an equation" % len(inner), **where(T, e[4]))
        return
    l = inner[0]
    lhs, rhs = ("fld", A, "lhs"), ("fld", A, "rhs")
    if not (same(l[2], ("size", lhs)) or same(l[2], ("size", rhs))):
        if l[2][0] in ("unknown", "upto"):
            R.undecided("equation-pairs", T.cls, case0, "rounds", **where(T, l[4]))
        else:
            R.bad("equation-pairs", T.cls, case0, "only %s of the assignments of an equation are written" % show(sub(l[2], I(0)))[-60:], **where(T, l[4]))
        return
    ix = ("idx", l[1])
    left, right = ("at", lhs, ix), ("at", rhs, ix)
    for k, (conds, items) in enumerate(W.textpaths(l[3])):
        case = "%s path %d" % (case0, k)
        flatp = list(runs(items, []))
        sides = {"L": 0, "R": 0}
        bad = None
        temps = {}
        for it, stack in flatp:
            if it[0] != "term":
                continue
            t = it[1]
            for s in subterms(t):
                if s[0] == "at" and len(s) == 3 and s[1] in (lhs, rhs) and s[2] != ix:
                    bad = "side %s of an equation is used for assignment %s" % (show(s[2]), show(ix))
            if W.printed(t) is not None:
                p = W.printed(t)
                if contains(p, lambda y: y == left):
                    sides["L"] += 1
                    b = element(p, left, stack)
                    bad = bad or b
                if contains(p, lambda y: y == right):
                    sides["R"] += 1
        if bad is None:
            bad = spread(items, left)
        if bad:
            R.bad("equation-pairs", T.cls, case, bad, **where(T, l[4]))
        elif sides["L"] and sides["R"]:
            R.ok("equation-pairs", T.cls, case)
        else:
            R.bad("equation-pairs", T.cls, case, "an assignment is written without its %s side when %s" % ("left" if not sides["L"] else "right", "; ".join(map(show, conds))[-150:]), **where(T, l[4]))


def runs(items, stack):
    for it in items:
        if it[0] == "loop":
            for c, s in W.textpaths(it[3]):
                for x in runs(s, stack + [it]):
                    yield x
        else:
            yield it, stack


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subterms(x):
                yield y


def element(p, left, stack):
    """print(mat.get(j, k)) inside the loops over rows and columns"""
    if p[:2] != ("call", "get") or len(p) < 5 or len(stack) < 2:
        return None
    r, c = p[3], p[4]
    lr, lc = ("idx", stack[-2][1]), ("idx", stack[-1][1])
    if (r, c) == (lr, lc):
        for l, d in ((stack[-2], 1), (stack[-1], 2)):
            n = l[2]
            if n[0] == "call" and n[1] == "getDimension" and len(n) > 3 and n[3][0] == "int" and n[3] != I(d):
                return "the %s of the left side are counted by dimension %d" % ("rows" if d == 1 else "columns", n[3][1])
            if n[0] == "op" or n[0] == "int":
                return "the loop over the %s of the left side runs %s times" % ("rows" if d == 1 else "columns", show(n)[-40:])
        return None
    if (r, c) == (lc, lr):
        return "elements are written column by column" if False else order_swapped(stack)
    return None


def order_swapped(stack):
    n1, n2 = stack[-2][2], stack[-1][2]
    g = lambda n: n[3] if n[0] == "call" and n[1] == "getDimension" and len(n) > 3 else None
    if g(n1) == I(1) and g(n2) == I(2):
        return "rows and columns of the left side are exchanged"
    return None


def spread(items, left):
    """element (j, k) of the left side gets element (j, k) of the right one"""
    import re
    for it in items:
        if it[0] != "loop":
            continue
        for c, s in W.textpaths(it[3]):
            for it2 in s:
                if it2[0] != "loop":
                    continue
                for c2, q in W.textpaths(it2[3]):
                    got = None
                    for i, x in enumerate(q):
                        if x[0] != "term":
                            continue
                        p = W.printed(x[1])
                        if p is not None and p[:2] == ("call", "get") and contains(p, lambda y: y == left) and len(p) >= 5:
                            got = (p[3], p[4])
                        elif got and q[i - 1][0] == "text" and re.search(r"\(\s*$", q[i - 1][1]) and i + 2 < len(q) and q[i + 1][0] == "text" and re.match(r"\s*,\s*$", q[i + 1][1]) and q[i + 2][0] == "term":
                            a, b = norm(x[1]), norm(q[i + 2][1])
                            if not (same(a, add(got[0], I(1))) and same(b, add(got[1], I(1)))):
                                if not W.open_term(a, ("varying", "opaque")) and not W.open_term(b, ("varying", "opaque")):
                                    return "element (%s, %s) of the left side gets element (%s, %s) of the right side" % (show(got[0]), show(got[1]), show(a), show(b))
    return temporaries(items)


def temporaries(items):
    """a temporary variable is read under the name it has been written"""
    written = None
    flat_ = list(runs(items, []))
    for i, (it, st) in enumerate(flat_):
        if it[0] == "text":
            m = re.search(r"(temp_var_)(\d*)(\s*=.*)?$", it[1].rsplit("\n", 1)[-1])
            if not m:
                continue
            ident = ("s", m.group(2)) if m.group(2) else None
            nxt = flat_[i + 1][0] if i + 1 < len(flat_) else None
            if ident is None and nxt is not None and nxt[0] == "term":
                ident = nxt[1]
            if ident is None:
                continue
            if written is None:
                written = ident
            elif written != ident and not W.open_term(ident, ("varying", "opaque")):
                return "temporary variable %s is read, %s has been written" % (show(ident), show(written))
    return None


def errors(R, T, f):
    """expressions the printer could not express are reported"""
    if not any(ev[0] == "write" and contains(ev[2], lambda y: isinstance(y, tuple) and y[:2] == ("call", "print")) for ev in emit.flat(f.evs)):
        return
    case = "%s:%s" % (T.name, f.kind())
    hit = [e for e in f.rest if e[0] == "if" and find(e[1], "getErrorcount") and any(x[0] == "message" for x in emit.flat(e[2]))]
    later = [e for e in f.rest if e[0] == "open"]
    if hit:
        R.ok("errors-reported", T.cls, case)
    elif any(find(t, "getErrorcount") for e in f.rest for t in e if isinstance(t, tuple)):
        R.undecided("errors-reported", T.cls, case, "", **where(T, f.line))
    else:
        R.bad("errors-reported", T.cls, case, "the number of expressions that could not be printed is not reported for this file", **where(T, f.line))
    if not f.closed:
        R.undecided("closed", T.cls, case, "closed by its destructor", **where(T, f.line))


def imports(R, db):
    """names the Python printer uses are imported by the files"""
    T = W.Target(db, "Symbolics::PythonWriter")
    pr = "Symbolics::PythonPrinter"
    names = set()
    for fn in db.funcs.values():
        if fn.get("cls") == pr and fn.get("body") is not None:
            for s in strings(fn["body"]):
                names |= set(re.findall(r"(?<![\w.])([A-Za-z_]\w*)(?=[(.])", s))
    for b in ("Symbolics::Printer",):
        for fn in db.funcs.values():
            if fn.get("cls") == b and fn.get("body") is not None and db.resolve_virtual(pr, fn["u"], fn["n"]) in (None, fn):
                for s in strings(fn["body"]):
                    names |= set(re.findall(r"(?<![\w.])([A-Za-z_]\w*)(?=[(])", s))
    builtin = {"abs", "float", "int", "range", "dict", "list", "max", "min", "pow", "round", "sum", "len"}
    for f in T.files:
        text = "".join(x[2][1] if x[2][0] == "s" else "\0" for x in emit.flat(f.evs) if x[0] == "write")
        have = set()
        for m in re.finditer(r"(?:from\s+\S+\s+)?import\s+([^\n]*)", text):
            for part in m.group(1).split(","):
                w = part.split(" as ")[-1].strip()
                have.add(w)
        if "*" in have:
            continue
        for n in sorted(names - builtin):
            case = "Python:%s %s" % (f.kind(), n)
            if n in have:
                R.ok("imported", T.cls, case)
            elif f.unclear():
                R.undecided("imported", T.cls, case, "", **where(T, f.line))
            else:
                R.bad("imported", T.cls, case, "the printer writes %s(...), the file does not import it" % n, **where(T, f.line))


def strings(n):
    if isinstance(n, dict):
        if n.get("k") == "str":
            yield n["v"]
        if n.get("k") == "throw":
            return
        if n.get("k") == "call" and n.get("op") == "<<" and "cerr" in str(n)[:3000]:
            return
        for v in n.values():
            for s in strings(v):
                yield s
    elif isinstance(n, list):
        for v in n:
            for s in strings(v):
                yield s
