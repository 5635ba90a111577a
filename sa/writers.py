"""Facts about generated files, read off the emission trees of the writers."""
import re
import emit
from emit import same, norm, I, S, add, sub, flat
from engine import subst, contains

BASE = {"Python": 0, "C": 0, "CSharp": 0, "FMU": 0, "Matlab": 1, "Fortran": 1, "Modelica": 1}
INCLUSIVE = ("Matlab", "Fortran")


class Target:
    """emission tree of one target language, cut into generated files"""

    def __init__(self, db, cls):
        self.db, self.cls = db, cls
        self.name = cls.split("::")[-1].replace("Writer", "")
        wr = set(db.derived("Symbolics::Writer")) | {"Symbolics::Writer"}
        self.E = emit.Emitter(db, cls, lambda fn: fn.get("cls") in wr or "/writer/" in fn["file"])
        fs = [f for f in db.byname.get(cls + "::generateTarget_Impl", []) if f.get("body") is not None]
        self.entry = fs[0] if fs else None
        self.tree = self.E.tree(self.entry, self.initial()) if self.entry else []
        self.files = []
        self.cut(self.tree, [])

    def initial(self):
        """numbers the constructor gives to members"""
        short = self.cls.split("::")[-1]
        out = None
        for f in self.db.byname.get("%s::%s" % (self.cls, short), []):
            if f.get("body") is None or f.get("implicit"):
                continue
            try:
                self.E.tree(f)
            except Exception:
                return {}
            v = {k: x for k, x in self.E.fields.items() if x[0] in ("int", "bool")}
            out = v if out is None else {k: x for k, x in v.items() if out.get(k) == x}
        self.E.nloop = 0
        return {k: x for k, x in (out or {}).items() if x[0] == "int"}

    def cut(self, evs, conds):
        opened = {}
        for i, e in enumerate(evs):
            if e[0] == "open":
                j = next((k for k in range(i + 1, len(evs)) if evs[k][0] in ("close", "open") and evs[k][1] == e[1]), len(evs))
                pre = [x for x in evs[:i] if x[0] in ("newstream",)]
                closed = j < len(evs) and evs[j][0] == "close"
                self.files.append(File(self, e[2], e[1], evs[i + 1:j], evs, conds, closed, evs[j:], e[3]))
            elif e[0] == "if":
                self.cut(e[2], conds + [e[1]])
                self.cut(e[3], conds + [("not", e[1])])
            elif e[0] == "loop":
                self.cut(e[3], conds + [("loop", e[1])])


def unrolled(e, loops):
    """a written string that a loop has put together is that loop"""
    out = []
    for x in emit.pieces(e[2]):
        if x[0] == "rep" and loops.get(x[1]):
            out.append(("loop", x[1], loops[x[1]]["count"], unrolled(("write", e[1], x[2], e[3]), loops), e[3]))
        else:
            out.append(("write", e[1], x, e[3]))
    return out


def restrict(evs, s, root, loops):
    """only what reaches stream s; text of string streams is put where it is inserted"""
    out = []
    for e in evs:
        if e[0] == "write" and e[1] == s:
            if e[2][0] == "streamtext":
                out += restrict(root, e[2][1], root, loops)
            elif any(x[0] == "rep" for x in emit.pieces(e[2])):
                out += unrolled(e, loops)
            elif e[2][0] == "cat" and any(x[0] == "streamtext" for x in e[2][1]):
                for x in e[2][1]:
                    out += restrict(root, x[1], root, loops) if x[0] == "streamtext" else [("write", s, x, e[3])]
            else:
                out.append(e)
        elif e[0] == "loop":
            b = restrict(e[3], s, root, loops)
            if b:
                out.append(("loop", e[1], e[2], b, e[4]))
        elif e[0] == "if":
            a, b = restrict(e[2], s, root, loops), restrict(e[3], s, root, loops)
            if a or b:
                out.append(("if", e[1], a, b, e[4]))
        elif e[0] in ("throw", "break"):
            out.append(e)
    # guards that only throw do not belong to the text
    return [e for e in out if e[0] not in ("throw",)] if not any(e[0] == "write" for e in flat(out)) else out


class File:
    def __init__(self, target, name, stream, evs, root, conds, closed, rest, line):
        self.target, self.nameterm, self.stream, self.conds, self.closed, self.rest, self.line = target, name, stream, conds, closed, rest, line
        self.evs = restrict(evs, stream, root, target.E.loops)
        self.raw = evs
        t = name
        self.suffix = "".join(p[1] if p[0] == "s" else "*" for p in emit.pieces(t))

    def unclear(self):
        """something is written here that the analysis cannot resolve"""
        if any(e[0] == "opaque" for e in flat(self.raw)):
            return True
        for e in flat(self.evs):
            if e[0] == "write" and open_term(e[2], ("varying", "unbound", "opaque", "rep", "last", "prev", "acc", "streamtext", "ctor")):
                if e[2][0] == "call" and e[2][1] in ("print",):
                    continue
                return True
        return False

    def kind(self):
        s = self.suffix
        for k in ("_der_state_symbolic", "_sensors_symbolic", "_der_state", "_sensors", "_visual", "_inputs", "_sim"):
            if re.search(re.escape(k) + r"(\.\w+$)", s):
                return k[1:]
        return s.rsplit("/", 1)[-1]


# ------------------------------------------------------------------ terms
def printed(t):
    """X if the term is the printed form of X"""
    if t[0] == "call" and t[1] in ("print", "getName"):
        return t[-1]
    return None


def surely(t):
    """categories contained in a mask whatever the options are"""
    if t[0] == "ite":
        a, b = surely(t[2]), surely(t[3])
        return a & b if a is not None and b is not None else None
    return emit.mask(t)


def open_term(t, kinds):
    """contains a term of one of the kinds outside the names of variables"""
    if not isinstance(t, tuple) or not t:
        return False
    if elem(t) if t[0] == "at" and len(t) == 3 and isinstance(t[1], tuple) else False:
        return open_term(t[2], kinds)
    if t[0] in kinds:
        return True
    return any(open_term(x, kinds) for x in t)


def collection(c):
    """(sorted by, assignments kind, mask) of a collection of variables"""
    cmp = None
    while c[0] in ("sorted", "reverse", "swapped"):
        cmp = c[1] if c[0] == "sorted" else (c[0], cmp)
        c = c[2] if c[0] == "sorted" else c[1]
    if c[0] == "call" and c[1] == "getVariables":
        m = surely(c[-1])
        src = c[2]
        k = None
        if src[0] == "call" and src[1] == "getAssignments":
            k = surely(src[3]) if len(src) > 3 else None
            if len(src) > 4 and src[4] not in (I(0),):
                k = None
        elif src[0] in ("param",):
            k = "graph"
        return cmp, k, m
    return None


def elem(t):
    """(collection term, index) of a variable taken from a collection"""
    if t[0] == "at" and t[1] is not None and collection(t[1]) is not None:
        return t[1], t[2]
    return None


def elems_in(t):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "at" and isinstance(x[1], tuple) and x[1] and elem(x):
                out.append(x)
            for y in x:
                go(y)
    go(t)
    return out


def canon(t):
    """numbers of elements of state variables (column vectors or scalars)"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(canon(x) for x in t)
    if t[0] == "call" and len(t) >= 3 and isinstance(t[2], tuple) and t[2][:2] == ("call", "getShape"):
        x = t[2][2]
        if t[1] == "getNumEl":
            return ("n1", x)
        if t[1] == "getDimension":
            return ("n1", x) if t[3] == I(1) else I(1) if t[3] == I(2) else t
    if t[0] == "call" and t[1] == "getNumEl":
        return ("n1", t[2])
    if t[0] == "ite" and t[1][0] == "call" and t[1][1] == "is_Scalar" and t[2] == I(1) and t[3] == ("n1", t[1][2]):
        return t[3]
    if t[0] == "op" and t[1] in emit.INT_OPS:
        return norm(t)
    return t


def scalarize(t, x):
    return subst(t, {("n1", x): I(1)})


# ------------------------------------------------------------------ paths of text
def textpaths(evs, conds=()):
    """all ways through a list of events: [(conditions, items)], item = ("text", s) | ("term", t) | ("loop", L, count, evs)"""
    paths = [(list(conds), [])]
    for e in evs:
        if e[0] == "write":
            for p in paths:
                for x in emit.pieces(e[2]):
                    if x[0] == "s":
                        if p[1] and p[1][-1][0] == "text":
                            p[1][-1] = ("text", p[1][-1][1] + x[1])
                        else:
                            p[1].append(("text", x[1]))
                    else:
                        p[1].append(("term", x, e[3]))
        elif e[0] == "loop":
            for p in paths:
                p[1].append(("loop", e[1], e[2], e[3], e[4]))
        elif e[0] == "if":
            new = []
            for c, ev in ((e[1], e[2]), (emit.neg(e[1]), e[3])):
                for q in textpaths(ev):
                    for p in paths:
                        r = (p[0] + [c] + q[0], list(p[1]))
                        for it in q[1]:
                            if it[0] == "text" and r[1] and r[1][-1][0] == "text":
                                r[1][-1] = ("text", r[1][-1][1] + it[1])
                            else:
                                r[1].append(it)
                        new.append(r)
            paths = new[:64]
        elif e[0] == "throw":
            return []
    return paths


ACC = re.compile(r"(?:^|[^\w.])(yd?)\s*([\[(])\s*$")


def second(text):
    """a second index of y, written as a literal, selects the only column"""
    m = re.match(r"\s*,\s*(\d+)\s*\)", text)
    return not m or m.group(1) == "1"


def accesses(items, base, inclusive):
    """array accesses y[...] / yd[...] in a run of text: (array, lo, hi, following items index)"""
    out = []
    for i, it in enumerate(items):
        if it[0] == "text" and i + 1 < len(items) and items[i + 1][0] == "term":
            m = ACC.search(it[1])
            if not m:
                continue
            lo = items[i + 1][1]
            nxt = items[i + 2][1] if i + 2 < len(items) and items[i + 2][0] == "text" else ""
            line = items[i + 1][2]
            lo0 = sub(canon(lo), I(base))
            if re.match(r"\s*:", nxt):
                if i + 3 < len(items) and items[i + 3][0] == "term":
                    hi = canon(items[i + 3][1])
                    hi0 = sub(hi, I(base - 1)) if inclusive else sub(hi, I(base))
                    tail = items[i + 4][1] if i + 4 < len(items) and items[i + 4][0] == "text" else ""
                    out.append((m.group(1), lo0, hi0, i, line) if second(tail) else (m.group(1), ("column",), ("column",), i, line))
                else:
                    out.append((m.group(1), lo0, None, i, line))
            else:
                out.append((m.group(1), lo0, add(lo0, I(1)), i, line) if second(nxt) else (m.group(1), ("column",), ("column",), i, line))
        elif it[0] == "loop":
            for conds, sub_ in textpaths(it[3]):
                for a in accesses(sub_, base, inclusive):
                    L, cnt = it[1], canon(it[2])
                    lo, hi = a[1], a[2]
                    ix = ("idx", L)
                    rest = norm(subst(lo, {ix: I(0)}))
                    if hi is not None and same(lo, add(rest, ix)) and same(hi, add(lo, I(1))):
                        out.append((a[0], rest, add(rest, cnt), i, a[4], L))
                    elif hi is not None and not contains(lo, lambda x: x == ix):
                        out.append(a)
                    else:
                        out.append((a[0], None, None, i, a[4]))
    return out


def conjuncts(conds):
    for c in conds:
        if c[0] == "and":
            for x in conjuncts(c[1:]):
                yield x
        else:
            yield c


def unused(conds, x, f):
    """does the path say that the variable does not occur in the equations of the file?"""
    srcs = set()

    def go(t):
        if isinstance(t, tuple):
            if t[:2] == ("call", "getEquations"):
                srcs.add(t[2])
            for y in t:
                go(y)
    for e in flat(f.evs):
        if e[0] == "loop":
            go(e[2])

    def of(c):
        while c[0] in ("sorted", "reverse", "swapped"):
            c = c[2] if c[0] == "sorted" else c[1]
        return c[:2] == ("call", "getVariables") and c[2] in srcs and elem(x) is not None and (emit.mask(c[-1]) or frozenset()) >= (collection(x[1])[2] or frozenset(["?"]))
    for c in conjuncts(conds):
        if c[0] == "eq" and len(c) == 3:
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if a[:2] == ("call", "find") and len(a) == 5 and a[4] == x and a[2][0] == "it" and a[2][2] == I(0) and of(a[2][1]) and b == ("it", a[2][1], ("size", a[2][1])) and a[3] == b:
                    return True
                if a[:2] == ("call", "count") and len(a) == 5 and a[4] == x and a[2][0] == "it" and of(a[2][1]) and b == I(0):
                    return True
    return False


def vague(conds):
    """conditions the analysis cannot read"""
    return any(open_term(c, ("varying", "opaque", "unbound", "last", "prev")) for c in conds)
