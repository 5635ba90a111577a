"""Path-sensitive value-flow analysis over the extracted AST.

Every function is turned into a set of outcomes (guards, value, effects); the
values are terms over the function's inputs obtained by forward substitution.
Branches are refined with an abstract domain of type tags / equalities / integer
intervals, helpers are inlined (bounded depth), loops are never unrolled: a loop
is summarised by the transfer function of one iteration (its per-path updates of
the loop-carried locations) together with its recognised iteration domain.
Nothing is executed and no solver is involved.
"""
import itertools

INF = float("inf")


class Undecided(Exception):
    pass


T = tuple
NULL = ("null",)
TRUE = ("bool", True)
FALSE = ("bool", False)
VOID = ("void",)


def I(n):
    return ("int", n)


def S(s):
    return ("s", s)


def is_const(t):
    return t[0] in ("int", "real", "bool", "s", "enum", "null", "char")


def cval(t):
    if t[0] in ("int", "real", "bool", "s", "char"):
        return t[1]
    if t[0] == "enum":
        return t[2]
    if t[0] == "null":
        return 0
    return None


def subst(t, m):
    """replace sub-terms of t according to dict m"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    ch = False
    out = []
    for x in t:
        if isinstance(x, tuple):
            y = subst(x, m)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else t


def contains(t, pred):
    if isinstance(t, tuple):
        if pred(t):
            return True
        return any(contains(x, pred) for x in t)
    return False


def cat(a, b):
    pa = list(a[1]) if a[0] == "cat" else [a]
    pb = list(b[1]) if b[0] == "cat" else [b]
    out = []
    for p in pa + pb:
        if p == S(""):
            continue
        if p[0] in ("s", "char") and out and out[-1][0] == "s":
            out[-1] = S(out[-1][1] + p[1])
        elif p[0] == "char":
            out.append(S(p[1]))
        else:
            out.append(p)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def add(a, b):
    if a[0] in ("int", "bool") and b[0] in ("int", "bool"):
        return I(a[1] + b[1])
    if a[0] in ("int", "real") and b[0] in ("int", "real"):
        return ("real", a[1] + b[1])
    if b == I(0):
        return a
    if a == I(0):
        return b
    if a[0] == "int":
        a, b = b, a
    if b[0] == "int" and a[0] == "op" and a[1] == "+" and a[3][0] == "int":
        return add(a[2], I(a[3][1] + b[1]))
    return ("op", "+", a, b)


def sub(a, b):
    if b[0] == "int":
        return add(a, I(-b[1]))
    if a == b:
        return I(0)
    if a[0] == "real" and b[0] == "real":
        return ("real", a[1] - b[1])
    return ("op", "-", a, b)


def has_return(n):
    if isinstance(n, dict):
        return n.get("k") == "return" or n.get("k") != "lambda" and any(has_return(x) for x in n.values())
    return isinstance(n, list) and any(has_return(x) for x in n)


class Loop:
    n = 0

    def __init__(self, line):
        Loop.n += 1
        self.id = Loop.n
        self.line = line
        self.domain = None      # dict(start, stop, step, seq) or None
        self.extra = []         # further continuation guards
        self.trans = []         # [(guards, {key: new}, effects, status)]
        self.phis = {}          # key -> (init, phi)
        self.kid = {}           # key -> small number used inside terms
        self.cond = None

    def __repr__(self):
        return "<L%d %s %s>" % (self.id, self.domain, self.trans)


class State:
    __slots__ = ("env", "heap", "fields", "eqs", "types", "ival", "guards", "effects", "status", "ret", "line", "assigned", "trace")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.fields = {}
        self.eqs = {}
        self.types = {}
        self.ival = {}
        self.guards = ()
        self.effects = ()
        self.status = None
        self.ret = None
        self.line = 0
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.fields = dict(self.fields)
        s.eqs = dict(self.eqs)
        s.types = dict(self.types)
        s.ival = dict(self.ival)
        s.guards = self.guards
        s.effects = self.effects
        s.status = self.status
        s.ret = self.ret
        s.line = self.line
        s.trace = self.trace
        return s


class Outcome:
    def __init__(self, kind, value, st):
        self.kind = kind
        self.value = value
        self.guards = st.guards
        self.effects = st.effects
        self.st = st
        self.line = st.line

    def __repr__(self):
        return "%s %s | %s" % (self.kind, show(self.value), "; ".join(showg(g) for g in self.guards))


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    if not isinstance(k, str):
        return "(" + ",".join(s(x) for x in t) + ")"
    if k in ("int", "real", "bool"):
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "enum":
        return t[1]
    if k == "call":
        r = s(t[2]) + "." if t[2] else ""
        return r + t[1] + "(" + ", ".join(s(x) for x in t[3]) + ")"
    if k == "op":
        return "(" + s(t[2]) + " " + t[1] + " " + s(t[3]) + ")"
    if k == "fld":
        return s(t[1]) + "." + t[2]
    if k == "this":
        return "this"
    if k == "null":
        return "null"
    if k in ("param", "sym"):
        return str(t[1])
    if k == "idx":
        return "i%d" % t[1]
    if len(t) == 1:
        return k
    return k + "(" + ", ".join(s(x) for x in t[1:]) + ")"


def showg(g):
    a, b = g
    return ("" if b else "!") + show(a)


PURE_UNKNOWN = True


class Engine:
    MAXSTATES = 6000

    def __init__(self, db, opaque=None, models=None, maxdepth=8, type_enum="_BASIC_TYPE"):
        self.db = db
        self.opaque = opaque or (lambda f, e: False)
        self.models = models or {}
        self.maxdepth = maxdepth
        self.loops = {}
        self.nobj = 0
        self.stack = []
        self.inlined = set()
        self.unknown_calls = set()
        self._classes(type_enum)

    # ------------------------------------------------------------- type tags
    def _classes(self, type_enum):
        self.tags = {}
        for n, e in self.db.enums.items():
            if n.split("::")[-1] == type_enum or any(c[0] == "Type_Zero" for c in e["c"]):
                for c, v in e["c"]:
                    self.tags[c] = v
        self.alltags = frozenset(self.tags.values())
        # class -> tags, from the Type_* constant each constructor hands to its base
        self.cls_tags = {}
        from load import nodes
        for f in self.db.funcs.values():
            if f.get("isctor"):
                for i in f.get("inits", ()):
                    if "base" in i:
                        for r in nodes(i["e"], "ref"):
                            if r.get("d") == "enum" and r["n"] in self.tags:
                                self.cls_tags.setdefault(f["cls"], set()).add(r["v"])

    def class_tags(self, cls):
        out = set()
        for c in self.db.derived(cls):
            out |= self.cls_tags.get(c, set())
        return frozenset(out)

    def tags_of(self, x, st):
        if x in st.types:
            return st.types[x]
        if x[0] == "obj":
            ops = st.heap.get(x, ())
            if ops and ops[0][0] == "ctor":
                t = self.class_tags(ops[0][1])
                if t:
                    return t
        if x[0] == "new":
            t = self.class_tags(x[1])
            if t:
                return t
        return self.alltags

    # ------------------------------------------------------------- facts
    def assume_tags(self, x, tags, st):
        cur = self.tags_of(x, st)
        new = cur & tags
        if not new:
            return False
        st.types[x] = new
        return True

    def interval(self, t, st):
        if t[0] in ("int", "real", "bool"):
            return (t[1], t[1])
        if t[0] == "enum":
            return (t[2], t[2])
        lo, hi = st.ival.get(t, (-INF, INF))
        if t[0] in ("size", "idx", "ndim", "dim", "nargs"):
            lo = max(lo, 0)
        if t[0] == "ndim":
            hi = min(hi, 2)
        if t[0] == "op" and t[1] == "+" and t[3][0] == "int":
            a, b = self.interval(t[2], st)
            lo, hi = max(lo, a + t[3][1]), min(hi, b + t[3][1])
        return (lo, hi)

    def atom_value(self, a, st):
        """True/False when the facts decide atom a, else None"""
        if a in st.eqs:
            return st.eqs[a]
        k = a[0]
        if k == "bool":
            return a[1]
        if k == "int":
            return a[1] != 0
        if k == "eq":
            x, y = a[1], a[2]
            if x == y:
                return True
            if is_const(x) and is_const(y):
                return cval(x) == cval(y)
            for p, q in ((x, y), (y, x)):
                if p[0] == "type" and q[0] == "enum":
                    ts = self.tags_of(p[1], st)
                    if q[2] not in ts:
                        return False
                    if ts == {q[2]}:
                        return True
                    return None
                if p[0] == "type" and q[0] == "type":
                    ta, tb = self.tags_of(p[1], st), self.tags_of(q[1], st)
                    if not ta & tb:
                        return False
                    if len(ta) == 1 and ta == tb:
                        return True
                    return None
                if q == NULL:
                    if p[0] in ("obj", "new", "this", "param", "arg", "addr", "simp", "at", "it", "inst", "sym"):
                        return False
            ia, ib = self.interval(x, st), self.interval(y, st)
            if ia[1] < ib[0] or ib[1] < ia[0]:
                return False
            if ia[0] == ia[1] == ib[0] == ib[1]:
                return True
        if k == "lt":
            x, y = a[1], a[2]
            if x == y:
                return False
            ia, ib = self.interval(x, st), self.interval(y, st)
            if ia[1] < ib[0]:
                return True
            if ia[0] >= ib[1]:
                return False
            if st.eqs.get(("lt", y, x)):
                return False
            if st.eqs.get(self.mkeq(x, y)):
                return False
        if k == "deq" and a[1] == a[2]:
            return True
        return None

    def mkeq(self, a, b):
        if a[0] == "bool" or b[0] == "bool":
            pass
        return ("eq",) + tuple(sorted((a, b), key=repr))

    def assume(self, a, val, st):
        """record atom a == val; False if contradictory"""
        v = self.atom_value(a, st)
        if v is not None:
            return v == val
        st.eqs[a] = val
        st.guards = st.guards + ((a, val),)
        if a[0] == "eq":
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if p[0] == "type" and q[0] == "enum":
                    tags = frozenset([q[2]]) if val else self.alltags - {q[2]}
                    return self.assume_tags(p[1], tags, st)
                if p[0] == "type" and q[0] == "type" and val:
                    ta, tb = self.tags_of(p[1], st), self.tags_of(q[1], st)
                    return self.assume_tags(p[1], tb, st) and self.assume_tags(q[1], ta, st)
                if q[0] in ("int", "real", "enum"):
                    c = cval(q)
                    lo, hi = self.interval(p, st)
                    if val:
                        st.ival[p] = (c, c)
                        if c < lo or c > hi:
                            return False
                    else:
                        if lo == c and isinstance(c, int):
                            st.ival[p] = (c + 1, hi)
                        elif hi == c and isinstance(c, int):
                            st.ival[p] = (lo, c - 1)
                        lo, hi = st.ival.get(p, (lo, hi))
                        if lo > hi:
                            return False
        elif a[0] == "lt":
            x, y = a[1], a[2]
            if y[0] in ("int", "enum") and x[0] not in ("real",):
                lo, hi = self.interval(x, st)
                st.ival[x] = (lo, min(hi, cval(y) - 1)) if val else (max(lo, cval(y)), hi)
                if st.ival[x][0] > st.ival[x][1]:
                    return False
            elif x[0] in ("int", "enum"):
                lo, hi = self.interval(y, st)
                st.ival[y] = (max(lo, cval(x) + 1), hi) if val else (lo, min(hi, cval(x)))
                if st.ival[y][0] > st.ival[y][1]:
                    return False
        return True

    def decide(self, v, st):
        """fork st on the truth of term v -> [(bool, st)]"""
        k = v[0]
        if k == "not":
            return [(not b, s) for b, s in self.decide(v[1], st)]
        if k == "bool":
            return [(v[1], st)]
        if k in ("int", "real"):
            return [(v[1] != 0, st)]
        if k == "null":
            return [(False, st)]
        if k == "enum":
            return [(v[2] != 0, st)]
        if k == "and":
            out = []
            for b, s in self.decide(v[1], st):
                if not b:
                    out.append((False, s))
                else:
                    out += self.decide(v[2], s)
            return out
        if k == "or":
            out = []
            for b, s in self.decide(v[1], st):
                if b:
                    out.append((True, s))
                else:
                    out += self.decide(v[2], s)
            return out
        if k in ("obj", "addr", "this"):
            return [(True, st)]
        if k not in ("eq", "lt", "deq", "peq", "truth"):
            v = ("truth", v)
            x = v[1]
            if x[0] in ("new", "it", "inst"):
                return [(True, st)]
        r = self.atom_value(v, st)
        if r is not None:
            return [(r, st)]
        out = []
        s2 = st.copy()
        if self.assume(v, True, st):
            out.append((True, st))
        if self.assume(v, False, s2):
            out.append((False, s2))
        return out

    # ------------------------------------------------------------- memory
    def newobj(self, st, ops):
        self.nobj += 1
        o = ("obj", self.nobj)
        st.heap[o] = tuple(ops)
        return o

    def ops(self, v, st):
        if v in st.heap:
            return st.heap[v]
        if v[0] == "seqv":
            return v[1]
        return (("copy", v),)

    def snapshot(self, v, st):
        if v[0] == "obj" or v in st.heap:
            ops = st.heap.get(v, ())
            if ops == (("copy", v),):
                return v
            if len(ops) == 1 and ops[0][0] == "copy":
                return ops[0][1]
            if ops and ops[0][0] == "ctor":
                return v
            return ("seqv", ops)
        return v

    def clone(self, v, st):
        if v[0] == "obj":
            return self.newobj(st, st.heap.get(v, ()))
        if v in st.heap:
            return self.newobj(st, st.heap[v])
        return v

    def resolve(self, t, st, seen=()):
        if not isinstance(t, tuple):
            return t
        if t and t[0] in ("idx", "int", "s", "this", "param", "sym", "enum", "bool"):
            return t
        if t and t[0] == "obj":
            if t in seen:
                return t
            ops = st.heap.get(t)
            if ops is None:
                return t
            se = seen + (t,)
            if ops and ops[0][0] == "ctor":
                if len(ops) == 1:
                    return ("new", ops[0][1], self.resolve(ops[0][2], st, se))
                return ("inst", ops[0][1], self.resolve(ops[0][2], st, se), self.resolve(ops[1:], st, se))
            if len(ops) == 1 and ops[0][0] == "copy":
                return self.resolve(ops[0][1], st, se)
            return ("seqv", self.resolve(ops, st, se))
        if seen or True:
            out = tuple(self.resolve(x, st, seen) if isinstance(x, tuple) else x for x in t)
            return out if out != t else t

    def push(self, v, op, st):
        st.heap[v] = self.ops(v, st) + (op,)

    def seq_at(self, v, i, st):
        ops = self.ops(v, st)
        return self.ops_at(ops, i, v)

    def is_seq(self, t):
        return t[0] in ("seqv", "args", "simpargs", "obj")

    def at(self, seq, i):
        if seq[0] == "args":
            return ("arg", seq[1], i)
        if seq[0] == "simpargs":
            return ("simp", ("arg", seq[1], i))
        return ("at", seq, i)

    def ops_at(self, ops, i, v=None):
        # latest explicit write to the same index wins
        for n in range(len(ops) - 1, -1, -1):
            o = ops[n]
            if o[0] == "set" or o[0] == "put":
                if o[1] == i:
                    return o[2]
                if is_const(o[1]) and is_const(i):
                    continue
                return ("at", ("seqv", ops), i)
            break
        ops2 = tuple(o for o in ops if o[0] != "reserve")
        while ops2 and ops2[-1][0] in ("set", "put"):
            ops2 = ops2[:-1]
        if len(ops2) == 1:
            o = ops2[0]
            if o[0] == "copy":
                return self.at(o[1], i)
            if o[0] == "map":
                L = self.loops[o[1]]
                it = self.map_items(o)
                if it is not None and len(it) == 1 and L.domain and L.domain["step"] == 1 and L.domain["start"] == I(0) and not L.extra:
                    return subst(it[0], {("idx", L.id): i})
        if i[0] == "int" and all(o[0] == "item" for o in ops2) and 0 <= i[1] < len(ops2):
            return ops2[i[1]][1]
        if not ops2:
            return ("at", ("seqv", ()), i)
        return ("at", ("seqv", ops), i)

    def map_items(self, o):
        """items appended per iteration by a ('map', loop, key) op when unconditional"""
        L = self.loops[o[1]]
        tr = [t for t in L.trans]
        if len(tr) != 1 or tr[0][3] is not None:
            return None
        new = tr[0][1].get(o[2])
        if new is None:
            return None
        items = new[1:]
        if all(x[0] == "item" for x in items):
            return [x[1] for x in items]
        return None

    def seq_size(self, v, st):
        ops = tuple(o for o in self.ops(v, st) if o[0] not in ("set", "reserve", "sort"))
        if len(ops) == 1 and ops[0][0] == "copy":
            c = ops[0][1]
            return ("nargs", c[1]) if c[0] in ("args", "simpargs") else ("size", c)
        if all(o[0] == "item" for o in ops):
            return I(len(ops))
        if len(ops) == 1 and ops[0][0] == "map":
            L = self.loops[ops[0][1]]
            it = self.map_items(ops[0])
            if it is not None and len(it) == 1 and L.domain and L.domain["start"] == I(0) and L.domain["step"] == 1 and not L.extra:
                return L.domain["stop"]
        if len(ops) == 1 and ops[0][0] == "fill":
            return ops[0][1]
        return ("size", ("seqv", ops))

    # lvalues: ('V', id) ('F', base, name) ('E', seq, idx) ('T', term)
    def rd(self, l, st):
        if l[0] == "V":
            v = st.env.get(l[1])
            if v is None:
                return ("uninit", l[1])
            if v[0] == "ref":
                return self.rd(v[1], st)
            return v
        if l[0] == "F":
            key = (l[1], l[2])
            if key in st.fields:
                return st.fields[key]
            return self.field_term(l[1], l[2], st)
        if l[0] == "E":
            return self.seq_at(l[1], l[2], st)
        if l[0] == "T":
            return l[1]
        if l[0] == "SE":
            return ("charat", self.rd(l[1], st), l[2])
        raise Undecided("lvalue " + l[0])

    def field_term(self, base, name, st):
        if base[0] == "pair" and name in ("first", "second"):
            return base[1] if name == "first" else base[2]
        if base[0] == "struct":
            for k, v in base[2]:
                if k == name:
                    return v
        m = self.models.get("field:" + name)
        if m:
            r = m(self, base, st)
            if r is not None:
                return r
        return ("fld", base, name)

    def wr(self, l, v, st):
        if l[0] == "V":
            cur = st.env.get(l[1])
            if cur is not None and cur[0] == "ref":
                return self.wr(cur[1], v, st)
            st.env[l[1]] = v
        elif l[0] == "F":
            b = l[1]
            if b[0] == "pair" and len(b) == 4 and l[2] == "second":
                self.push(b[3], ("set", b[1], v), st)
                return
            if b[0] == "pair" and l[2] in ("first", "second"):
                st.effects += (("pairwrite", b, l[2], v),)
                return
            st.fields[(b, l[2])] = v
        elif l[0] == "E":
            self.push(l[1], ("set", l[2], v), st)
        elif l[0] == "SE":
            self.wr(l[1], ("strset", self.rd(l[1], st), l[2], v), st)
        elif l[0] == "T":
            st.effects += (("write", l[1], v, st.line),)
        else:
            raise Undecided("write")

    def lv(self, e, st):
        k = e["k"]
        if k == "ref":
            if e["d"] in ("var", "param"):
                vid = (self.frame(), e["id"])
                v = st.env.get(vid)
                if v is not None and v[0] == "ref":
                    return [(v[1], st)]
                return [(("V", vid), st)]
            return [(("F", ("global",), e.get("q") or e["n"]), st)]
        if k == "mem":
            out = []
            for b, s in self.ev(e["b"], st):
                out.append((("F", b, e["n"]), s))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for v, s in self.ev(e["e"], st):
                if v[0] == "addr":
                    out.append((v[1], s))
                elif v[0] == "it":
                    out.append((("E", v[1], v[2]), s))
                else:
                    out.append((("T", v), s))
            return out
        if k == "idx":
            out = []
            for b, s in self.ev(e["b"], st):
                for i, s2 in self.ev(e["i"], s):
                    out.append((("E", b, i), s2))
            return out
        if k == "call" and e.get("op") == "[]" and "basic_string" in e.get("f", ""):
            out = []
            for l, s in self.lv(e["obj"] if "obj" in e else e["args"][0], st):
                for i, s2 in self.ev(e["args"][-1], s):
                    out.append((("SE", l, i), s2))
            return out
        if k == "call" and e.get("op") == "[]":
            out = []
            for b, s in self.ev(e["obj"] if "obj" in e else e["args"][0], st):
                for i, s2 in self.ev(e["args"][-1], s):
                    out.append((("E", b, i), s2))
            return out
        if k == "call" and e.get("op") in ("*", "->") and e.get("obj") and not e.get("args"):
            out = []
            for v, s in self.ev(e["obj"], st):
                if v[0] == "addr":
                    out.append((v[1], s))
                elif v[0] == "it":
                    out.append((("E", v[1], v[2]), s))
                else:
                    out.append((("T", v), s))
            return out
        if k == "call" and e.get("f", "").split("::")[-1] in ("at", "back", "front") and e["f"].startswith("std::"):
            out = []
            nm = e["f"].split("::")[-1]
            for b, s in self.ev(e["obj"], st):
                if nm == "at":
                    for i, s2 in self.ev(e["args"][0], s):
                        out.append((("E", b, i), s2))
                elif nm == "front":
                    out.append((("E", b, I(0)), s))
                else:
                    out.append((("E", b, sub(self.seq_size(b, s), I(1))), s))
            return out
        if k in ("cast", "ncast"):
            return self.lv(e["e"], st)
        if k == "un" and e["op"] in ("++", "--"):
            return [(l, s) for l, s in self.lv_incdec(e, st)]
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            out = []
            for v, s in self.ev(e, st):
                for l, s2 in self.lv(e["a"], s):
                    out.append((l, s2))
            return out
        if k == "cond":
            out = []
            for c, s in self.ev(e["c"], st):
                for b, s2 in self.decide(c, s):
                    out += self.lv(e["a"] if b else e["b"], s2)
            return out
        return [(("T", v), s) for v, s in self.ev(e, st)]

    def lv_incdec(self, e, st):
        out = []
        for v, s in self.ev(e, st):
            out += self.lv(e["e"], s)
        return out

    def frame(self):
        return self.stack[-1][1] if self.stack else 0

    # ------------------------------------------------------------- expressions
    def evs(self, es, st):
        outs = [([], st)]
        for e in es:
            nxt = []
            for vs, s in outs:
                if s.status:
                    nxt.append((vs + [VOID], s))
                    continue
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            outs = nxt
        return outs

    def ev(self, e, st):
        if e is None:
            return [(VOID, st)]
        if st.status:
            return [(VOID, st)]
        m = getattr(self, "ev_" + e["k"], None)
        if m is None:
            raise Undecided("expr kind " + e["k"])
        if e.get("l"):
            st.line = e["l"]
        r = m(e, st)
        if len(r) > self.MAXSTATES:
            raise Undecided("too many paths")
        return r

    def ev_int(self, e, st): return [(I(e["v"]), st)]
    def ev_float(self, e, st): return [(("real", float(e["v"])), st)]
    def ev_str(self, e, st): return [(S(e["v"]), st)]
    def ev_char(self, e, st): return [(("char", e["v"]), st)]
    def ev_bool(self, e, st): return [(("bool", e["v"]), st)]
    def ev_nullptr(self, e, st): return [(NULL, st)]
    def ev_sizeof(self, e, st): return [(("sizeof", e["t"]), st)]
    def ev_zeroinit(self, e, st): return [(I(0) if not e["t"].endswith("*") else NULL, st)]
    def ev_typeid(self, e, st): return [(("typeid", e.get("t", "")), st)]
    def ev_lambda(self, e, st):
        self._lam = getattr(self, "_lam", {})
        outs = [({}, st)]
        for c, i in zip(e.get("capv", ()), e.get("caps", ())):
            if c.get("ref") and not c.get("init"):
                continue
            nxt = []
            for d, s in outs:
                if c.get("init"):
                    nxt += [(dict(d, **{str(c["id"]): v}), s2) for v, s2 in self.ev(i, s)] if not s.status else [(d, s)]
                else:
                    nxt.append((dict(d, **{str(c["id"]): self.rd(("V", (self.frame(), c["id"])), s)}), s))
            outs = nxt
        res = []
        for d, s in outs:
            k = len(self._lam)
            self._lam[k] = (e, self.stack[-1], tuple(sorted(d.items())))
            res.append((("lambda", k), s))
        return res

    def call_lambda(self, k, vs, st):
        """the body of a lambda runs in the frame that made it: captured variables are those of that frame"""
        e, (fn, fr), copies = self._lam[k]
        if any(x[0].get("lam") == k for x in self.stack) or len(self.stack) >= self.maxdepth + 4:
            return None
        back = {}
        for i, v in copies:
            back[(fr, int(i))] = st.env.get((fr, int(i)))
            st.env[(fr, int(i))] = v
        for n, p in enumerate(e["params"]):
            v = vs[n] if n < len(vs) else ("uninit", p["n"])
            if v[0] == "ref" and not p["t"].endswith("&"):
                v = self.rd(v[1], st)
            st.env[(fr, p["id"])] = v
        self.stack.append((dict(fn, lam=k), fr))
        try:
            outs = self.ex(e["body"], st)
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            v = VOID
            if s.status == "return":
                v = s.ret if s.ret is not None else VOID
                s.status = None
                s.ret = None
            if s.status != "throw":
                for i, o in back.items():
                    if o is not None:
                        s.env[i] = o
                    else:
                        s.env.pop(i, None)
            res.append((v, s))
        return res

    def ev_this(self, e, st):
        return [(st.env.get((self.frame(), "this"), ("this",)), st)]

    def ev_ref(self, e, st):
        d = e["d"]
        if d == "enum":
            return [(("enum", e["n"], e["v"]), st)]
        if d == "func":
            return [(("func", e["f"], e.get("u")), st)]
        if d in ("var", "param"):
            return [(self.rd(("V", (self.frame(), e["id"])), st), st)]
        q = e.get("q") or e["n"]
        key = (("global",), q)
        if key in st.fields:
            return [(st.fields[key], st)]
        g = self.glob_init(q)
        if g is not None:
            return self.ev(g, st)
        return [(("glob", q), st)]

    def glob_init(self, q):
        """initialiser of a global that no function ever assigns"""
        if not hasattr(self.db, "_gl"):
            from load import nodes
            written = set()
            for f in self.db.funcs.values():
                for x in nodes(f["body"]):
                    t = None
                    if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                        t = x["a"]
                    elif x.get("k") == "call" and x.get("op") in ("=", "+=", "++", "--") and x.get("obj"):
                        t = x["obj"]
                    elif x.get("k") == "un" and x["op"] in ("++", "--", "&"):
                        t = x["e"]
                    if t and t.get("k") in ("ref", "mem"):
                        written.add(t.get("q") or t.get("n"))
            gl = {}
            for k, g in self.db.globals.items():
                t = g["t"].replace("const ", "")
                if g["f"] not in written and (t.startswith("boost::intrusive_ptr<Symbolics::Basic>") or t in ("int", "double", "bool", "unsigned long", "char *", "float", "unsigned int", "long") or t.startswith("std::basic_string<char>")):
                    gl[g["f"]] = g["i"]
            self.db._gl = gl
        return self.db._gl.get(q)

    def ev_mem(self, e, st):
        if "f" in e:  # member function designator
            return [(("func", e["f"], e.get("u")), st)]
        out = []
        for b, s in self.ev(e["b"], st):
            if b[0] == "it":
                b = self.seq_at(b[1], b[2], s)
            elif b[0] == "addr":
                b = self.rd(b[1], s)
            out.append((self.rd(("F", b, e["n"]), s), s))
        return out

    def ev_ncast(self, e, st):
        out = []
        for v, s in self.ev(e["e"], st):
            if e["t"] in ("double", "float") and v[0] == "int":
                v = ("real", float(v[1]))
            elif e["t"] == "bool":
                v = ("not", self.mkeq(v, I(0)))
            elif e["t"] not in ("double", "float"):
                v = ("trunc", v)
            out.append((v, s))
        return out

    def ev_cast(self, e, st):
        if e["ck"] == "dynamic":
            return self.ev_dyncast(e, st)
        out = []
        for v, s in self.ev(e["e"], st):
            if e["cast"] == "FloatingToIntegral":
                v = ("trunc", v)
            elif e["cast"] == "IntegralToFloating" and v[0] == "int":
                v = ("real", float(v[1]))
            elif e["cast"] == "NullToPointer" or (v == I(0) and e["t"].endswith("*")):
                v = NULL
            out.append((v, s))
        return out

    def ev_dyncast(self, e, st):
        t = e["t"].replace("const ", "").strip()
        ptr = t.endswith("*")
        cls = t.rstrip("*& ").strip()
        tags = self.class_tags(cls)
        out = []
        for v, s in self.ev(e["e"], st):
            cur = self.tags_of(v, s)
            if not tags or cur <= tags:
                out.append((v, s))
                continue
            s2 = s.copy()
            if self.assume_tags(v, tags, s):
                s.guards += ((("isa", v, cls), True),)
                out.append((v, s))
            if self.assume_tags(v, self.alltags - tags, s2):
                s2.guards += ((("isa", v, cls), False),)
                if ptr:
                    out.append((NULL, s2))
                else:
                    s2.status = "throw"
                    s2.ret = ("new", "std::bad_cast", ())
                    out.append((VOID, s2))
        return out

    def ev_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for l, s in self.lv(e["e"], st):
                old = self.rd(l, s)
                new = self.incdec(old, 1 if op == "++" else -1)
                self.wr(l, new, s)
                out.append((old if e.get("post") else new, s))
            return out
        if op == "&":
            x = e["e"]
            if x["k"] in ("ref", "mem", "idx") and not (x["k"] == "ref" and x["d"] in ("func", "enum")) and not (x["k"] == "mem" and "f" in x):
                out = []
                for l, s in self.lv(x, st):
                    v = self.rd(l, s) if l[0] in ("V", "F", "E", "T") else None
                    # address of an object held by term: transparent
                    if v is not None and v[0] in ("obj", "this", "param", "at", "fld", "sym", "glob", "arg") and l[0] != "V":
                        out.append((v, s))
                    elif v is not None and v[0] in ("obj", "sym"):
                        out.append((v, s))
                    else:
                        out.append((("addr", l), s))
                return out
            return self.ev(x, st)
        out = []
        for v, s in self.ev(e["e"], st):
            if op == "!":
                out.append((self.negate(v), s))
            elif op == "-":
                if v[0] in ("int", "real"):
                    out.append(((v[0], -v[1]), s))
                else:
                    out.append((("neg", v), s))
            elif op == "+":
                out.append((v, s))
            elif op == "*":
                if v[0] == "addr":
                    out.append((self.rd(v[1], s), s))
                elif v[0] == "it":
                    out.append((self.seq_at(v[1], v[2], s), s))
                else:
                    out.append((v, s))
            else:
                out.append((("un", op, v), s))
        return out

    def incdec(self, v, d):
        if v[0] == "it":
            return ("it", v[1], add(v[2], I(d)))
        return add(v, I(d))

    def negate(self, v):
        if v[0] == "not":
            return v[1]
        if v[0] == "bool":
            return ("bool", not v[1])
        if v[0] == "int":
            return ("bool", v[1] == 0)
        if v == NULL:
            return TRUE
        return ("not", v)

    def ev_cond(self, e, st):
        out = []
        for c, s in self.ev(e["c"], st):
            for b, s2 in self.decide(c, s):
                out += self.ev(e["a"] if b else e["b"], s2)
        return out

    def ev_bin(self, e, st):
        op = e["op"]
        if op == "&&" or op == "||":
            out = []
            for a, s in self.ev(e["a"], st):
                for b, s2 in self.decide(a, s):
                    if s2.status:
                        out.append((FALSE, s2))
                    elif b == (op == "||"):
                        out.append((("bool", b), s2))
                    else:
                        out += self.ev(e["b"], s2)
            return out
        if op == ",":
            out = []
            for a, s in self.ev(e["a"], st):
                out += self.ev(e["b"], s)
            return out
        if op == "=":
            out = []
            for v, s in self.ev(e["b"], st):
                for l, s2 in self.lv(e["a"], s):
                    self.wr(l, self.assign_value(v, s2), s2)
                    out.append((v, s2))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for v, s in self.ev(e["b"], st):
                for l, s2 in self.lv(e["a"], s):
                    old = self.rd(l, s2)
                    new = self.arith(op[:-1], old, v, e["t"])
                    self.wr(l, new, s2)
                    out.append((new, s2))
            return out
        out = []
        for a, s in self.ev(e["a"], st):
            for b, s2 in self.ev(e["b"], s):
                out.append((self.binop(op, a, b, e["t"], s2), s2))
        return out

    def assign_value(self, v, st):
        return v

    def binop(self, op, a, b, t, st):
        if op in ("==", "!="):
            v = self.equal(a, b, st)
            return v if op == "==" else self.negate(v)
        if op in ("<", ">", "<=", ">="):
            if op == "<":
                v = ("lt", a, b)
            elif op == ">":
                v = ("lt", b, a)
            elif op == "<=":
                v = ("not", ("lt", b, a))
            else:
                v = ("not", ("lt", a, b))
            x = v[1] if v[0] == "not" else v
            if is_const(x[1]) and is_const(x[2]) and x[1][0] != "s":
                r = cval(x[1]) < cval(x[2])
                return ("bool", r != (v[0] == "not"))
            return v
        return self.arith(op, a, b, t)

    def equal(self, a, b, st):
        if a[0] == "it" and b[0] == "it":
            if a[1] == b[1]:
                a, b = a[2], b[2]
        if a[0] == "find" and b[0] == "it" and b[2][0] == "size":
            return ("not", ("truth", ("has", a[1], a[2])))
        if b[0] == "find" and a[0] == "it" and a[2][0] == "size":
            return ("not", ("truth", ("has", b[1], b[2])))
        if is_const(a) and is_const(b):
            return ("bool", cval(a) == cval(b))
        if a == b and a[0] not in ("call",):
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y[0] == "bool" and x[0] in ("eq", "lt", "not", "deq", "truth", "and", "or"):
                return x if y[1] else self.negate(x)
        return self.mkeq(a, b)

    def arith(self, op, a, b, t=""):
        if a[0] == "it" and op in ("+", "-"):
            if b[0] == "it":
                return sub(a[2], b[2])
            return ("it", a[1], add(a[2], b) if op == "+" else sub(a[2], b))
        if op == "+":
            if a[0] in ("s", "cat", "char") or b[0] in ("s", "cat"):
                return cat(a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if a[0] in ("int", "real") and b[0] in ("int", "real"):
            x, y = a[1], b[1]
            k = "int" if a[0] == b[0] == "int" else "real"
            try:
                if op == "*":
                    return (k, x * y)
                if op == "/":
                    return (k, int(x / y) if k == "int" else x / y)
                if op == "%":
                    return (k, x % y)
            except ZeroDivisionError:
                pass
        if op == "*":
            if a == I(1):
                return b
            if b == I(1):
                return a
            if a[0] == "int" and a[1] == 0 or b[0] == "int" and b[1] == 0:
                return I(0)
        if op == "/" and t and t not in ("double", "float") and "std" not in t:
            op = "/i"
        return ("op", op, a, b)

    def ev_idx(self, e, st):
        out = []
        for b, s in self.ev(e["b"], st):
            for i, s2 in self.ev(e["i"], s):
                out.append((self.seq_at(b, i, s2), s2))
        return out

    def ev_init(self, e, st):
        out = []
        for vs, s in self.evs(e["e"], st):
            if e.get("fields"):
                out.append((("struct", e["t"], tuple(zip(e["fields"], vs))), s))
            elif len(vs) == 1 and not e["t"].endswith("]"):
                out.append((vs[0], s))
            else:
                out.append((self.newobj(s, [("item", v) for v in vs]), s))
        return out

    def ev_throw(self, e, st):
        out = []
        if e["e"] is None:
            st.status = "throw"
            st.ret = ("rethrow",)
            return [(VOID, st)]
        for v, s in self.ev(e["e"], st):
            if not s.status:
                s.status = "throw"
                s.ret = self.resolve(v, s)
            out.append((VOID, s))
        return out

    def ev_delete(self, e, st):
        out = []
        for v, s in self.ev(e["e"], st):
            s.effects += (("delete", v, e["l"]),)
            out.append((VOID, s))
        return out

    def ev_new(self, e, st):
        init = e.get("init")
        if init and init["k"] == "ctor" and not e.get("size"):
            return self.ev_ctor(init, st, heap=True)
        out = []
        for v, s in self.ev(init, st) if init else [(VOID, st)]:
            out.append((self.newobj(s, (("ctor", e["t"], () if v == VOID else (v,)),)), s))
        return out

    def ev_ctor(self, e, st, heap=False):
        c = e["c"]
        out = []
        for vs, s in self.evs(e["args"], st):
            if s.status:
                out.append((VOID, s))
                continue
            out += self.construct(c, vs, e, s)
        return out

    CONTAINERS = ("std::vector", "std::list", "std::set", "std::map", "std::deque", "std::stack", "std::queue", "std::multimap", "std::multiset")
    STREAMS = ("std::basic_ostringstream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_istringstream", "std::basic_ifstream")

    def construct(self, c, vs, e, s):
        m = self.models.get("ctor:" + c)
        if m:
            r = m(self, vs, e, s)
            if r is not None:
                return r
        if c == "boost::intrusive_ptr":
            return [(vs[0] if vs else NULL, s)]
        if c in ("std::basic_string",):
            if not vs:
                return [(S(""), s)]
            if len(vs) <= 2 and (len(vs) == 1 or (len(vs) == 2 and vs[1] == ("alloc",))):
                return [(vs[0], s)]
            vs = [v for v in vs if v != ("alloc",)]
            if vs[0] == I(0):
                return [(S(""), s)]
            if len(vs) == 2 and vs[0][0] == "int" and vs[1][0] == "char":
                return [(S(vs[1][1] * vs[0][1]), s)]
            return [(("call", "string", None, tuple(vs)), s)]
        if c == "std::allocator":
            return [(("alloc",), s)]
        if c == "std::pair":
            if len(vs) == 1:
                return [(vs[0], s)]
            if len(vs) == 2:
                return [(("pair", vs[0], vs[1]), s)]
            return [(("pair", VOID, VOID), s)]
        if c in self.CONTAINERS:
            vs = [v for v in vs if v != ("alloc",) and not (v[0] in ("obj",) and False)]
            if e.get("copy"):
                return [(self.clone_c(vs[0], s), s)]
            if not vs or (vs[0][0] == "new" and vs[0][1] == "std::less"):
                return [(self.newobj(s, ()), s)]
            if vs[0][0] == "it" and len(vs) >= 2 and vs[1][0] == "it":
                if vs[0][2] == I(0) and vs[1][2] == self.seq_size(vs[0][1], s):
                    return [(self.clone_c(vs[0][1], s), s)]
                return [(self.newobj(s, (("range", self.snapshot(vs[0][1], s), vs[0][2], vs[1][2]),)), s)]
            if c == "std::vector" and len(vs) in (1, 2, 3) and vs[0][0] != "obj":
                return [(self.newobj(s, (("fill", vs[0], vs[1] if len(vs) > 1 and vs[1] != ("alloc",) else VOID),)), s)]
            if len(vs) == 1:
                return [(self.clone_c(vs[0], s), s)]
            return [(self.newobj(s, (("ctorargs", tuple(vs)),)), s)]
        if c in self.STREAMS:
            return [(self.newobj(s, (("ctor", c, tuple(vs)),) if vs else ()), s)]
        if c.startswith("std::_") or c.startswith("__gnu_cxx::") or c in ("std::less",):
            return [(vs[0] if vs else ("new", c, ()), s)]
        if e.get("copy"):
            v = vs[0]
            if v[0] == "obj":
                return [(self.newobj(s, (("ctor", c, (self.snapshot_inst(v, s),)),)), s)]
            if self.is_value_class(c):
                return [(v, s)]
            return [(self.newobj(s, (("ctor", c, (v,)),)), s)]
        vs = [self.snapshot(v, s) for v in vs]
        if self.is_value_class(c):
            return [(("new", c, tuple(vs)), s)]
        return [(self.newobj(s, (("ctor", c, tuple(vs)),)), s)]

    def snapshot_inst(self, v, s):
        return self.resolve(v, s)

    def clone_c(self, v, st):
        if v[0] == "obj" or v in st.heap:
            return self.newobj(st, self.ops(v, st))
        return self.newobj(st, (("copy", v),))

    VALUE = ("Shape", "Exception", "InternalError")

    def is_value_class(self, c):
        return c.split("::")[-1] in self.VALUE or "Error" in c or c.startswith("std::")

    # ------------------------------------------------------------- calls
    def ev_icall(self, e, st):
        out = []
        for c, s in self.ev(e["callee"], st):
            for vs, s2 in self.evs(e["args"], s):
                s2.effects += (("icall", c, tuple(vs), e["l"]),)
                out.append((("call", "*", c, tuple(vs)), s2))
        return out

    def ev_other(self, e, st):
        return [(("opaque", e["c"], e["l"]), st)]

    def ev_call(self, e, st):
        f = e.get("f", "?")
        h = self.std_call(f, e, st)
        if h is not None:
            return h
        out = []
        obj = e.get("obj")
        objs = self.ev(obj, st) if obj is not None else [(None, st)]
        usr = e.get("u")
        fn = self.db.funcs.get(usr) or self.static_fn(e)
        pt = [p["t"] for p in fn["params"]] if fn else []
        for o, s in objs:
            if s.status:
                out.append((VOID, s))
                continue
            if o is not None and o[0] == "addr":
                o = self.rd(o[1], s)
            if o is not None and o[0] == "it":
                o = self.seq_at(o[1], o[2], s)
            if o is not None and o[0] == "lambda" and o[1] in getattr(self, "_lam", {}):
                pt = [p["t"] for p in self._lam[o[1]][0]["params"]]
            # by-reference arguments are passed as locations
            combos = [([], s)]
            for n, a in enumerate(e["args"]):
                byref = n < len(pt) and pt[n].endswith("&") and "const " not in pt[n]
                nxt = []
                for vs, s1 in combos:
                    if s1.status:
                        nxt.append((vs, s1))
                        continue
                    if byref:
                        for l, s2 in self.lv(a, s1):
                            nxt.append((vs + [("ref", l)], s2))
                    else:
                        for v, s2 in self.ev(a, s1):
                            nxt.append((vs + [v], s2))
                combos = nxt
            for vs, s2 in combos:
                if s2.status:
                    out.append((VOID, s2))
                    continue
                r = None
                if o is not None and o[0] == "lambda" and e.get("op") == "()" and o[1] in getattr(self, "_lam", {}):
                    r = self.call_lambda(o[1], vs, s2)
                out += r if r is not None else self.invoke(f, fn, o, vs, e, s2)
        return out

    def static_fn(self, e):
        u = e.get("u")
        if not u or not self.stack:
            return None
        return self.db.funcs.get(u + "@" + self.stack[-1][0]["file"])

    def deref_args(self, vs, st):
        return [self.rd(v[1], st) if v[0] == "ref" else v for v in vs]

    def simple_name(self, f):
        return f.replace("Symbolics::", "")

    def invoke(self, f, fn, o, vs, e, st):
        m = self.models.get(f) or self.models.get("*::" + f.split("::")[-1])
        if m:
            r = m(self, o, vs, e, st)
            if r is not None:
                return r
        target = fn
        virt = e.get("virt") and not e.get("qual")
        if virt:
            target = None
            cls = self.dyn_class(o, st)
            if cls:
                target = self.db.resolve_virtual(cls, e["u"], f.split("::")[-1])
            elif fn is not None and not self.overridden(fn):
                target = fn
        if self.opaque(f, e) or (target is not None and self.opaque(target["f"], e)):
            return self.pure(f, o, vs, e, st, virt)
        if target is None or len(self.stack) >= self.maxdepth or any(x[0]["u"] == target["u"] for x in self.stack):
            return self.pure(f, o, vs, e, st, virt)
        return self.inline(target, o, vs, st)

    def overridden(self, fn):
        if not hasattr(self.db, "_ovr"):
            s = set()
            for g in self.db.funcs.values():
                for u in g.get("ovr", ()):
                    s.add(u)
            # declared but bodiless overriders
            for r in self.db.records.values():
                pass
            self.db._ovr = s
        return fn["u"] in self.db._ovr

    def dyn_class(self, o, st):
        if o is None:
            return None
        if o[0] == "this" and len(o) > 1:
            return o[1]
        if o[0] == "obj":
            ops = st.heap.get(o, ())
            if ops and ops[0][0] == "ctor":
                return ops[0][1]
        if o[0] in ("new", "inst"):
            return o[1]
        return None

    def pure(self, f, o, vs, e, st, virt):
        refs = [v for v in vs if v[0] == "ref"]
        vals = [self.snapshot(v, st) for v in self.deref_args(vs, st)]
        name = f.split("::")[-1] if virt else self.simple_name(f)
        t = ("call", name, self.snapshot(o, st) if o is not None else None, tuple(vals))
        if (o is not None and not e.get("const") and not e.get("static")) or refs or o is None:
            st.effects += (("call", f, o, tuple(vals), e.get("l", 0)),)
        # out parameters become unknown results of this call
        for n, v in enumerate(vs):
            if v[0] == "ref":
                self.havoc_out(v[1], ("out", name, n, t), st)
            elif v[0] == "addr":
                self.havoc_out(v[1], ("out", name, n, t), st)
        # non-const method on a constructed object mutates it
        if o is not None and o[0] == "obj" and not e.get("const") and not e.get("static"):
            ops = st.heap.get(o, ())
            if ops and ops[0][0] == "ctor":
                self.push(o, ("m", name, tuple(vals)), st)
        return [(t, st)]

    def havoc_out(self, l, t, st):
        old = self.rd(l, st)
        if old[0] == "obj" or old in st.heap:
            self.push(old, ("havoc", t), st)
        else:
            self.wr(l, t, st)

    def inline(self, fn, o, vs, st):
        Engine._fr = getattr(Engine, "_fr", 0) + 1
        fr = Engine._fr
        self.inlined.add(fn["f"])
        self.stack.append((fn, fr))
        try:
            if o is not None:
                st.env[(fr, "this")] = o
            for n, p in enumerate(fn["params"]):
                v = vs[n] if n < len(vs) else ("uninit", p["n"])
                if v[0] == "ref" and not p["t"].endswith("&"):
                    v = self.rd(v[1], st)
                st.env[(fr, p["id"])] = v
            outs = self.ex(fn["body"], st)
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            if s.status == "return":
                v = s.ret
                s.status = None
                s.ret = None
            elif s.status == "throw":
                res.append((VOID, s))
                continue
            else:
                v = VOID
            for k in [k for k in s.env if k[0] == fr]:
                del s.env[k]
            res.append((v if v is not None else VOID, s))
        return res

    # ------------------------------------------------------------- std models
    def std_call(self, f, e, st):
        op = e.get("op")
        nm = f.split("::")[-1]
        obj = e.get("obj")
        args = e["args"]
        isstd = f.startswith("std::") or f.startswith("__gnu_cxx::")
        if f.startswith("boost::intrusive_ptr<"):
            if nm in ("operator->", "get", "operator*"):
                return [(self.undo_it(v, s), s) for v, s in self.ev(obj, st)]
            if nm == "operator=":
                return self.assign(e, obj, args[0], st)
            if nm == "swap":
                return None
        if f in ("boost::operator==", "boost::operator!=") :
            return self.bincall("==" if f.endswith("==") else "!=", args, st)
        if not isstd:
            if op == "=" and obj is not None and e.get("u") not in self.db.funcs:
                return self.assign(e, obj, args[0], st)
            if op == "=" and obj is not None and e.get("f", "").endswith("Shape::operator="):
                return self.assign(e, obj, args[0], st)
            return None
        if nm in ("operator->", "operator*") and obj is not None and not args:
            out = []
            for v, s in self.ev(obj, st):
                if v[0] == "it":
                    out.append((self.seq_at(v[1], v[2], s), s))
                elif v[0] == "find":
                    out.append((("pair", v[2], self.seq_at(v[1], v[2], s), v[1]), s))
                else:
                    out.append((v, s))
            return out
        if op == "=" and obj is not None:
            return self.assign(e, obj, args[0], st)
        if op in ("++", "--") and obj is not None:
            return self.ev_un({"k": "un", "op": op, "post": e.get("post"), "e": obj, "l": e["l"]}, st)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            ops = ([obj] if obj is not None else []) + args
            return self.bincall(op, ops, st)
        if op == "<<" or op == ">>":
            ops = ([obj] if obj is not None else []) + args
            out = []
            for vs, s in self.evs(ops, st):
                if s.status:
                    out.append((VOID, s))
                    continue
                if "basic_ostream" in e.get("t", "") or "std::basic_ostream" in f:
                    x = vs[1]
                    if x[0] == "func":
                        x = S("\n") if x[1].endswith("endl") else ("manip", x[1])
                    self.push(vs[0], ("item", x), s)
                    out.append((vs[0], s))
                else:
                    out.append((("op", op) + tuple(vs), s))
            return out
        if op == "+=" and obj is not None:
            out = []
            for v, s in self.ev(args[0], st):
                for l, s2 in self.lv(obj, s):
                    old = self.rd(l, s2)
                    new = ("it", old[1], add(old[2], v)) if old[0] == "it" else cat(old, v)
                    self.wr(l, new, s2)
                    out.append((new, s2))
            return out
        if op in ("+", "-"):
            ops = ([obj] if obj is not None else []) + args
            out = []
            for vs, s in self.evs(ops, st):
                if "string" in e.get("t", "") or "char" in e.get("t", ""):
                    out.append((cat(vs[0], vs[1]), s))
                else:
                    out.append((self.arith(op, vs[0], vs[1]), s))
            return out
        if op == "[]" and obj is not None:
            out = []
            for o, s in self.ev(obj, st):
                for i, s2 in self.ev(args[0], s):
                    out.append((self.seq_at(o, i, s2), s2))
            return out
        if obj is None:
            return self.std_free(f, nm, e, st)
        out = []
        for o, s in self.ev(obj, st):
            if o[0] == "addr":
                o = self.rd(o[1], s)
            for vs, s2 in self.evs(args, s):
                if s2.status:
                    out.append((VOID, s2))
                    continue
                out += self.std_method(f, nm, o, vs, e, s2)
        return out

    def undo_it(self, v, s):
        if v[0] == "it":
            return self.seq_at(v[1], v[2], s)
        if v[0] == "addr":
            return self.rd(v[1], s)
        return v

    def bincall(self, op, args, st):
        out = []
        for vs, s in self.evs(args, st):
            out.append((self.binop(op, vs[0], vs[1], "bool", s), s))
        return out

    def assign(self, e, obj, arg, st):
        out = []
        for v, s in self.ev(arg, st):
            for l, s2 in self.lv(obj, s):
                if v[0] == "obj":
                    ops = s2.heap.get(v, ())
                    if not (ops and ops[0][0] == "ctor"):
                        v2 = self.clone_c(v, s2)
                    else:
                        v2 = v
                elif v in s2.heap:
                    v2 = self.clone_c(v, s2)
                else:
                    v2 = v
                self.wr(l, v2, s2)
                if e.get("cls", "").startswith("std::") and l[0] == "F" and v2[0] != "obj":
                    pass
                out.append((v2, s2))
        return out

    def std_method(self, f, nm, o, vs, e, st):
        if nm in ("push_back", "push", "add_back", "emplace_back"):
            v = vs[0]
            if v[0] == "obj":
                ops = st.heap.get(v, ())
                if not (ops and ops[0][0] == "ctor"):
                    v = ("seqv", ops)
            self.push(o, ("item", v), st)
            return [(VOID, st)]
        if nm == "push_front":
            self.push(o, ("front", vs[0]), st)
            return [(VOID, st)]
        if nm in ("insert", "emplace") and f.startswith("std::map") and (
                nm == "insert" and len(vs) == 1 and vs[0][0] == "pair" or nm == "emplace" and len(vs) == 2):
            k, v = vs[0][1:3] if nm == "insert" else vs
            out = []
            for b, s in self.decide(("truth", ("has", o, k)), st):
                if not b:
                    self.push(o, ("set", k, v), s)
                out.append((("pair", ("find", o, k), ("bool", not b)), s))
            return out
        if nm == "insert":
            if len(vs) == 1:
                self.push(o, ("ins", vs[0]), st)
                return [(("pair", ("insit", o, vs[0]), ("inserted", self.snapshot(o, st), vs[0])), st)]
            if len(vs) == 2 and vs[0][0] == "it" and vs[0][1] == o:
                if vs[0][2] == I(0):
                    self.push(o, ("front", vs[1]), st)
                elif vs[0][2][0] == "size":
                    self.push(o, ("item", vs[1]), st)
                else:
                    self.push(o, ("insat", vs[0][2], vs[1]), st)
                return [(vs[0], st)]
            src = [v for v in vs[-2:]]
            if src[0][0] == "it" and src[1][0] == "it" and src[0][1] == src[1][1] and (
                    len(vs) == 2 or len(vs) == 3 and vs[0][0] == "it" and vs[0][1] == o and vs[0][2] == self.seq_size(o, st)):
                # a whole range appended
                if src[0][2] == I(0) and src[1][2] == self.seq_size(src[1][1], st) and src[0][1] != o:
                    self.push(o, ("copy", self.snapshot(src[0][1], st)), st)
                    return [(vs[0], st)]
            if len(vs) == 3 and vs[1][0] == "it":
                self.push(o, ("splice", vs[0], self.snapshot(vs[1][1], st), vs[1][2], vs[2][2] if vs[2][0] == "it" else vs[2]), st)
                return [(vs[0], st)]
            if len(vs) == 2 and vs[0][0] == "it":
                self.push(o, ("splice", VOID, self.snapshot(vs[0][1], st), vs[0][2], vs[1][2] if vs[1][0] == "it" else vs[1]), st)
                return [(VOID, st)]
            self.push(o, ("insert", tuple(vs)), st)
            return [(VOID, st)]
        if nm == "erase":
            self.push(o, ("erase", tuple(vs)), st)
            return [(("call", "erase", self.snapshot(o, st), tuple(vs)), st)]
        if nm in ("pop_back", "pop", "pop_front"):
            ops = self.ops(o, st)
            if nm != "pop_front" and ops and ops[-1][0] == "item":
                st.heap[o] = ops[:-1]
            else:
                self.push(o, (nm,), st)
            return [(VOID, st)]
        if nm == "clear":
            if f.startswith("std::basic_string"):
                return None or self.assign_s(e, S(""), st)
            st.heap[o] = ()
            st.effects += (("clear", o, e["l"]),)
            return [(VOID, st)]
        if nm in ("reserve", "flush"):
            return [(VOID, st)]
        if nm == "resize":
            self.push(o, ("resize",) + tuple(vs), st)
            return [(VOID, st)]
        if nm in ("size", "length"):
            if o[0] in ("s",):
                return [(I(len(o[1])), st)]
            if o[0] == "cat":
                return [(("size", o), st)]
            return [(self.seq_size(o, st), st)]
        if nm == "empty":
            n = I(len(o[1])) if o[0] == "s" else ("size", o) if o[0] == "cat" else self.seq_size(o, st)
            return [(self.equal(n, I(0), st), st)]
        if nm in ("begin", "cbegin"):
            return [(("it", o, I(0)), st)]
        if nm in ("end", "cend"):
            return [(("it", o, self.seq_size(o, st)), st)]
        if nm in ("rbegin", "rend", "crbegin", "crend"):
            return [(("call", nm, self.snapshot(o, st), ()), st)]
        if nm == "find" and f.startswith(("std::map", "std::set", "std::multimap")):
            return [(("find", o if o[0] == "obj" else self.snapshot(o, st), vs[0]), st)]
        if nm == "count" and f.startswith(("std::map", "std::set")):
            return [(("call", "count", self.snapshot(o, st), tuple(vs)), st)]
        if nm == "at":
            return [(self.seq_at(o, vs[0], st), st)]
        if nm == "front":
            return [(self.seq_at(o, I(0), st), st)]
        if nm in ("back", "top"):
            ops = self.ops(o, st)
            if ops and ops[-1][0] == "item":
                return [(ops[-1][1], st)]
            return [(("at", self.snapshot(o, st), sub(self.seq_size(o, st), I(1))), st)]
        if nm in ("c_str", "data"):
            return [(o, st)]
        if nm == "str" and not vs:
            ops = self.ops(o, st)
            v = S("")
            for x in ops:
                if x[0] == "item":
                    v = cat(v, x[1])
                else:
                    v = cat(v, ("piece", x))
            return [(v, st)]
        if nm == "append" and f.startswith("std::basic_string"):
            out = []
            for l, s2 in self.lv(e["obj"], st):
                new = cat(self.rd(l, s2), vs[0])
                self.wr(l, new, s2)
                out.append((new, s2))
            return out
        if nm in ("sort",):
            self.push(o, ("sort",), st)
            return [(VOID, st)]
        if nm == "swap":
            a, b = self.ops(o, st), self.ops(vs[0], st)
            st.heap[o], st.heap[vs[0]] = b, a
            return [(VOID, st)]
        if nm in ("open", "close"):
            st.effects += ((nm, o, tuple(vs), e["l"]),)
            self.push(o, (nm, tuple(vs)), st)
            return [(VOID, st)]
        if nm == "operator bool" or nm == "operator!":
            return [(("truth", ("call", "good", o, ())) if nm == "operator bool" else ("not", ("truth", ("call", "good", o, ()))), st)]
        if not e.get("const"):
            st.effects += (("call", f, o, tuple(vs), e["l"]),)
        return [(("call", nm, self.snapshot(o, st), tuple(vs)), st)]

    def assign_s(self, e, v, st):
        out = []
        for l, s2 in self.lv(e["obj"], st):
            self.wr(l, v, s2)
            out.append((VOID, s2))
        return out

    def std_free(self, f, nm, e, st):
        out = []
        for vs, s in self.evs(e["args"], st):
            if s.status:
                out.append((VOID, s))
                continue
            if nm == "make_pair" and len(vs) == 2:
                out.append((("pair", vs[0], vs[1]), s))
            elif any(v[0] == "lambda" for v in vs) and nm not in ("sort", "stable_sort"):
                out += self.algorithm(nm, vs, e, s)
            elif nm in ("sort", "stable_sort") and vs[0][0] == "it":
                self.push(vs[0][1], ("sort", vs[2] if len(vs) > 2 else None), s)
                out.append((VOID, s))
            elif nm == "find" and vs[0][0] == "it":
                out.append((("find", vs[0][1] if vs[0][1][0] == "obj" else self.snapshot(vs[0][1], s), vs[2]), s))
            elif nm == "copy" and len(vs) == 3 and vs[0][0] == "it" and vs[2][0] in ("inserter", "backins"):
                self.push(vs[2][1], ("splice", VOID, self.snapshot(vs[0][1], s), vs[0][2], vs[1][2]), s)
                out.append((VOID, s))
            elif nm == "back_inserter":
                out.append((("backins", vs[0]), s))
            elif nm in ("move", "forward", "ref", "cref", "as_const"):
                out.append((vs[0], s))
            elif nm in ("max", "min") and len(vs) == 2:
                out.append((("call", nm, None, tuple(vs)), s))
            elif nm == "swap" and len(vs) == 2:
                o2 = []
                for l1, s1 in self.lv(e["args"][0], s):
                    for l2, s2 in self.lv(e["args"][1], s1):
                        a, b = self.rd(l1, s2), self.rd(l2, s2)
                        self.wr(l1, b, s2)
                        self.wr(l2, a, s2)
                        o2.append((VOID, s2))
                out += o2
            elif nm == "to_string":
                out.append((("str", vs[0]), s))
            else:
                if nm in ("endl", "flush"):
                    self.push(vs[0], ("item", S("\n")), s)
                    out.append((vs[0], s))
                    continue
                s.effects += (("call", f, None, tuple(self.resolve(v, s) for v in vs), e["l"]),)
                out.append((("call", nm, None, tuple(self.snapshot(v, s) for v in vs)), s))
        return out

    def algorithm(self, nm, vs, e, st):
        """for_each / any_of / all_of / none_of over a whole container, with a lambda: the loop they stand for"""
        if not (len(vs) == 3 and vs[0][0] == "it" and vs[1][0] == "it" and vs[0][1] == vs[1][1] and vs[0][2] == I(0)
                and vs[1][2] == self.seq_size(vs[0][1], st) and vs[2][0] == "lambda"):
            raise Undecided("%s with a lambda" % nm)
        seq, k = vs[0][1], vs[2][1]
        lam, (fn, fr), copies = self._lam[k]
        if copies or len(lam["params"]) != 1:
            raise Undecided("%s with a lambda" % nm)
        body = lam["body"]["s"] if lam["body"]["k"] == "block" else [lam["body"]]
        l = lam["l"]
        if nm == "for_each":
            if has_return(lam["body"]):
                raise Undecided("for_each with a returning lambda")
            what, last = lam["body"], None
        elif nm in ("any_of", "all_of", "none_of") and len(body) == 1 and body[0]["k"] == "return":
            c = body[0]["e"]
            c = {"k": "un", "op": "!", "e": c, "t": "bool", "l": l} if nm == "all_of" else c
            const = lambda b: {"k": "return", "l": l, "e": {"k": "bool", "v": b, "l": l}}
            what, last = {"k": "if", "l": l, "c": c, "a": const(nm == "any_of"), "b": None}, const(nm != "any_of")
        else:
            raise Undecided("%s with a lambda" % nm)
        self.stack.append((fn, fr))
        try:
            states = self.loop({"k": "rangefor", "l": l}, None, what, None, st, seq=seq, var=lam["params"][0])
            outs = []
            for s in states:
                outs += self.ex(last, s) if last is not None and not s.status else [s]
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            v = VOID
            if s.status == "return":
                v, s.status, s.ret = s.ret, None, None
            res.append((v, s))
        return res

    # ------------------------------------------------------------- statements
    def ex(self, n, st):
        if n is None or st.status:
            return [st]
        m = getattr(self, "ex_" + n["k"], None)
        if m is None:
            raise Undecided("stmt kind " + n["k"])
        r = m(n, st)
        if len(r) > self.MAXSTATES:
            raise Undecided("too many paths")
        return r

    def ex_block(self, n, st):
        states = [st]
        for c in n["s"]:
            nxt = []
            for s in states:
                if s.status:
                    nxt.append(s)
                else:
                    nxt += self.ex(c, s)
            states = nxt
            if len(states) > self.MAXSTATES:
                raise Undecided("too many paths")
        return states

    def ex_expr(self, n, st):
        return [s for v, s in self.ev(n["e"], st)]

    def ex_null(self, n, st): return [st]

    def ex_return(self, n, st):
        out = []
        for v, s in self.ev(n["e"], st):
            if not s.status:
                s.status = "return"
                s.ret = v
                s.line = n["l"]
            out.append(s)
        return out

    def ex_break(self, n, st):
        st.status = "break"
        return [st]

    def ex_continue(self, n, st):
        st.status = "continue"
        return [st]

    def ex_decl(self, n, st):
        states = [st]
        for v in n["v"]:
            nxt = []
            for s in states:
                if s.status:
                    nxt.append(s)
                else:
                    nxt += self.declare(v, s)
            states = nxt
        return states

    def declare(self, v, st):
        vid = (self.frame(), v["id"])
        t = v["t"]
        i = v.get("i")
        if v.get("static"):
            st.env[vid] = ("static", v["n"])
            return [st]
        if t.endswith("&") and "const " not in t and i is not None:
            out = []
            for l, s in self.lv(i, st):
                s.env[vid] = ("ref", l) if l[0] != "T" else l[1]
                out.append(s)
            return out
        if i is None:
            base = t.replace("const ", "").split("<")[0]
            if base in self.CONTAINERS:
                st.env[vid] = self.newobj(st, ())
            elif "[" in t:
                st.env[vid] = self.newobj(st, (("uninitarray", t),))
            else:
                st.env[vid] = ("uninit", v["n"])
            return [st]
        out = []
        for x, s in self.ev(i, st):
            if not s.status:
                s.env[vid] = x
                for n, b in enumerate(v.get("bind", ())):
                    s.env[(self.frame(), b["id"])] = self.field_term(x, "first" if n == 0 else "second", s) if x[0] == "pair" or True else x
            out.append(s)
        return out

    def ex_if(self, n, st):
        states = [st]
        if n.get("init"):
            states = self.ex(n["init"], st)
        if n.get("var"):
            states = [s2 for s in states for s2 in self.declare(n["var"], s)]
        out = []
        for s0 in states:
            for c, s in self.ev(n["c"], s0):
                if s.status:
                    out.append(s)
                    continue
                for b, s2 in self.decide(c, s):
                    out += self.ex(n["a"] if b else n["b"], s2)
        return out

    def ex_switch(self, n, st):
        # flatten the body into (labels, statements)
        items = []

        def flat(s):
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s["v"] if s["k"] == "case" else None)
                s = s["s"]
            items.append((labels, s))
        body = n["body"]["s"] if n["body"]["k"] == "block" else [n["body"]]
        for s in body:
            flat(s)
        out = []
        for c, s in self.ev(n["c"], st):
            if s.status:
                out.append(s)
                continue
            cases = [(k, lab) for k, (labs, _) in enumerate(items) for lab in labs if lab is not None]
            default = next((k for k, (labs, _) in enumerate(items) if None in labs), None)
            pend = [s]
            for k, lab in cases:
                nxt = []
                for p in pend:
                    for lv_, p2 in self.ev(lab, p):
                        for b, p3 in self.decide(self.equal(c, lv_, p2), p2):
                            if b:
                                out += self.run_switch(items, k, p3)
                            else:
                                nxt.append(p3)
                pend = nxt
            for p in pend:
                if default is None:
                    out.append(p)
                else:
                    out += self.run_switch(items, default, p)
        return out

    def run_switch(self, items, k, st):
        states = [st]
        for labs, s in items[k:]:
            nxt = []
            for x in states:
                if x.status:
                    nxt.append(x)
                else:
                    nxt += self.ex(s, x)
            states = nxt
        for s in states:
            if s.status == "break":
                s.status = None
        return states

    def ex_try(self, n, st):
        out = []
        for s in self.ex(n["body"], st):
            if s.status != "throw":
                out.append(s)
                continue
            handled = False
            for h in n["h"]:
                t = h.get("var", {}).get("t", "...") if h.get("var") else "..."
                if self.catches(t, s.ret):
                    exc = s.ret
                    s.status = None
                    s.ret = None
                    if h.get("var"):
                        s.env[(self.frame(), h["var"]["id"])] = exc
                    s.guards += ((("caught", exc), True),)
                    out += self.ex(h["body"], s)
                    handled = True
                    break
            if not handled:
                out.append(s)
        return out

    def catches(self, t, exc):
        if t == "...":
            return True
        c = t.replace("const ", "").rstrip("& ").strip()
        if exc[0] == "new":
            return c in self.db.bases(exc[1]) or exc[1] == c or c == "std::exception" and exc[1].startswith("std::")
        return True

    def ex_label(self, n, st): raise Undecided("label")
    def ex_goto(self, n, st): raise Undecided("goto")
    def ex_otherstmt(self, n, st): raise Undecided("stmt " + n["c"])
    def ex_case(self, n, st): return self.ex(n["s"], st)
    def ex_default(self, n, st): return self.ex(n["s"], st)

    # ------------------------------------------------------------- loops
    def ex_for(self, n, st):
        states = self.ex(n["init"], st) if n.get("init") else [st]
        out = []
        for s in states:
            out += self.loop(n, n["c"], n["body"], n.get("inc"), s)
        return out

    def ex_while(self, n, st):
        return self.loop(n, n["c"], n["body"], None, st)

    def ex_do(self, n, st):
        # body once, then a while loop
        out = []
        for s in self.ex(n["body"], st):
            if s.status == "break":
                s.status = None
                out.append(s)
            elif s.status in ("return", "throw"):
                out.append(s)
            else:
                s.status = None
                out += self.loop(n, n["c"], n["body"], None, s)
        return out

    def ex_rangefor(self, n, st):
        out = []
        for c, s in self.ev(n["range"], st):
            out += self.loop(n, None, n["body"], None, s, seq=c, var=n["var"])
        return out

    def changed_keys(self, before, after):
        ch = set()
        for k, v in after.env.items():
            if k in before.env and before.env[k] != v:
                ch.add(("V", k))
        for k, v in after.heap.items():
            if before.heap.get(k, (("copy", k),) if k[0] != "obj" else None) != v and (k in before.heap or k[0] != "obj"):
                ch.add(("H", k))
        for k, v in after.fields.items():
            if before.fields.get(k) != v:
                ch.add(("F", k))
        return ch

    def getkey(self, st, key):
        kind, k = key
        if kind == "V":
            return st.env.get(k)
        if kind == "H":
            return st.heap.get(k, (("copy", k),))
        if k in st.fields:
            return st.fields[k]
        return self.field_term(k[0], k[1], st)

    def setkey(self, st, key, v):
        kind, k = key
        if kind == "V":
            st.env[k] = v
        elif kind == "H":
            st.heap[k] = v
        else:
            st.fields[k] = v

    def mkphi(self, L, key, init):
        n = L.kid.setdefault(key, len(L.kid))
        p = ("phi", L.id, n)
        if key[0] == "H":
            return (("prev", L.id, n),)
        if isinstance(init, tuple) and init and init[0] == "it":
            return ("it", init[1], p)
        return p

    def loop(self, n, cond, body, inc, st, seq=None, var=None):
        modified = set()
        for rnd in range(6):
            L = Loop(n["l"])
            self.loops[L.id] = L
            s0 = st.copy()
            s0.guards = ()
            s0.effects = ()
            for key in sorted(modified, key=repr):
                init = self.getkey(st, key)
                if init is None:
                    continue
                phi = self.mkphi(L, key, init)
                L.phis[key] = (init, phi)
                self.setkey(s0, key, phi)
            base = s0.copy()
            exits, ends = [], []
            if seq is not None:
                vid = (self.frame(), var["id"])
                x = self.seq_at(seq, ("idx", L.id), s0)
                if var["t"].endswith("&") and "const " not in var["t"]:
                    s0.env[vid] = ("ref", ("E", seq, ("idx", L.id)))
                else:
                    s0.env[vid] = x
                for bn, b in enumerate(var.get("bind", ())):
                    s0.env[(self.frame(), b["id"])] = self.field_term(x, "first" if bn == 0 else "second", s0)
                entry = [s0]
            else:
                entry = []
                for c, s in (self.ev(cond, s0) if cond is not None else [(TRUE, s0)]):
                    if s.status:
                        ends.append(s)
                        continue
                    for b, s2 in self.decide(c, s):
                        if b:
                            entry.append(s2)
                        else:
                            exits.append(s2)
            condguards = [s.guards for s in entry]
            outs = []
            for s, cg in zip(entry, condguards):
                for o in self.ex(body, s):
                    if o.status == "continue":
                        o.status = None
                    if o.status is None and inc is not None:
                        for v, o2 in self.ev(inc, o):
                            outs.append((o2, len(cg)))
                    else:
                        outs.append((o, len(cg)))
            new = set()
            for o, _ in outs:
                new |= self.changed_keys(base, o)
            for o in exits:
                new |= self.changed_keys(base, o)
            new = {k for k in new if k not in modified and self.getkey(st, k) is not None}
            if not new:
                break
            modified |= new
        else:
            raise Undecided("loop does not stabilise")
        # recognise the iteration domain
        sub_ = {}
        if seq is not None:
            L.domain = dict(start=I(0), stop=self.seq_size(seq, st), step=1, seq=self.snapshot(seq, st))
        else:
            cg = condguards[0] if condguards else ()
            for key, (init, phi) in L.phis.items():
                if key[0] != "V":
                    continue
                p = phi[2] if phi[0] == "it" else phi
                i0 = init[2] if phi[0] == "it" else init
                ups = set()
                for o, _ in outs:
                    if o.status is None:
                        v = self.getkey(o, key)
                        v = v[2] if v[0] == "it" and phi[0] == "it" else v
                        ups.add(v)
                if ups == {add(p, I(1))}:
                    step = 1
                elif ups == {add(p, I(-1))}:
                    step = -1
                else:
                    continue
                stop = None
                incl = False
                for a, b in cg:
                    if step == 1:
                        if a[0] == "lt" and a[1] == p and b:
                            stop = a[2]
                        elif a[0] == "lt" and a[2] == p and not b:
                            stop = add(a[1], I(1))
                        elif a[0] == "eq" and not b and p in a[1:]:
                            stop = a[2] if a[1] == p else a[1]
                        elif a[0] == "lt" and b and a[1] == add(p, I(1)):
                            stop = sub(a[2], I(1))
                    else:
                        if a[0] == "lt" and a[2] == p and b:
                            stop = a[1]
                        elif a[0] == "lt" and a[1] == p and not b:
                            stop = sub(a[2], I(1))
                        elif a[0] == "eq" and not b and p in a[1:]:
                            stop = a[2] if a[1] == p else a[1]
                    if stop is not None:
                        L.extra = [g for g in cg if g != (a, b)]
                        break
                if stop is None and phi[0] == "it":
                    continue
                if stop is None:
                    continue
                if contains(stop, lambda t: t[0:1] == ("phi",) and len(t) > 1 and t[1] == L.id):
                    # bound itself changes in the loop
                    L.domain = None
                    continue
                L.domain = dict(start=i0, stop=stop, step=step, seq=self.snapshot(init[1], st) if phi[0] == "it" else None)
                sub_[p] = ("idx", L.id)
                L.var = key
                break
        # transitions
        sset = set()
        for o, ncg in outs:
            upd = {}
            for key in L.phis:
                v = self.getkey(o, key)
                v = self.resolve_keep(v, o, key)
                upd[L.kid[key]] = subst(v, sub_)
            g = tuple((subst(a, sub_), b) for a, b in o.guards)
            ef = tuple(subst(self.resolve(x, o), sub_) for x in o.effects)
            r = subst(self.resolve(o.ret, o), sub_) if o.ret is not None else None
            o2 = o.copy()
            o2.guards = g
            if sub_:
                o2.types = {subst(k, sub_): x for k, x in o.types.items()}
                o2.eqs = {subst(k, sub_): x for k, x in o.eqs.items()}
                o2.ival = {subst(k, sub_): x for k, x in o.ival.items()}
            tr = (g[ncg:] if L.domain and not L.extra else g, upd, ef, o.status, r, o.line, o2)
            L.trans.append(tr)
        if seq is None and not L.domain:
            L.cond = condguards
        # outcomes
        res = []
        for o, ncg in outs:
            if o.status in ("return", "throw"):
                s = o
                s.trace = st.trace + (L.id,)
                s.guards = st.guards + ((("loop", L.id), True),) + tuple((subst(a, sub_), b) for a, b in o.guards[ncg:])
                s.ret = subst(self.resolve(o.ret, o), sub_) if o.ret is not None else None
                s.effects = st.effects + ((("loop", L.id),) if any(t[2] for t in L.trans) else ()) + tuple(subst(x, sub_) for x in o.effects)
                res.append(s)
        res += ends
        # fall-through state
        L.entry = st
        L.rename = dict(sub_)
        after = st.copy()
        after.trace = st.trace + (L.id,)
        live = [t for t in L.trans if t[3] in (None, "break")]
        for key, (init, phi) in L.phis.items():
            n_ = L.kid[key]
            vals = [t[1][n_] for t in live]
            phis = subst(phi, sub_)
            if all(v == phis for v in vals):
                continue
            if getattr(L, "var", None) == key and L.domain and not any(t[3] == "break" for t in live) and not L.extra:
                stop = L.domain["stop"]
                self.setkey(after, key, ("it", phi[1], stop) if phi[0] == "it" else stop)
                continue
            if key[0] == "H":
                if all(v and v[0] == ("prev", L.id, n_) for v in vals) and isinstance(init, tuple):
                    self.setkey(after, key, init + (("map", L.id, n_),))
                else:
                    self.setkey(after, key, init + (("loopseq", L.id, n_),))
                continue
            if all(self.is_cat_of(v, phis) for v in vals):
                self.setkey(after, key, cat(init, ("rep", L.id, n_)))
                continue
            v = ("loopval", L.id, n_)
            if phi[0] == "it":
                v = ("it", init[1], v)
            self.setkey(after, key, v)
        effs = any(t[2] for t in L.trans)
        if effs:
            after.effects += (("loop", L.id),)
        if not live and not exits and cond is None and seq is None:
            pass
        else:
            res.append(after)
        return res

    def is_cat_of(self, v, phi):
        return v == phi or (isinstance(v, tuple) and v and v[0] == "cat" and v[1][0] == phi)

    def resolve_keep(self, v, st, key):
        if v is None:
            return None
        if key[0] == "H":
            return tuple(self.resolve(x, st) for x in v)
        return self.resolve(v, st)

    # ------------------------------------------------------------- entry
    def run(self, fn, this=None, args=None, pre=None):
        """all outcomes of fn; this/args are input terms"""
        st = State()
        if fn.get("cls") and this is None and not fn.get("static"):
            this = ("this", fn["cls"])
        Engine._fr = getattr(Engine, "_fr", 0) + 1
        fr = Engine._fr
        self.stack = [(fn, fr)]
        if this is not None:
            st.env[(fr, "this")] = this
        for n, p in enumerate(fn["params"]):
            if args and n < len(args) and args[n] is not None:
                st.env[(fr, p["id"])] = args[n]
            else:
                st.env[(fr, p["id"])] = ("param", "p%d" % n)
        if pre:
            pre(self, st, fr)
        outs = []
        states = [st]
        if fn.get("isctor"):
            for i in fn.get("inits", ()):
                nxt = []
                for s in states:
                    if "m" in i:
                        for v, s2 in self.ev(i["e"], s):
                            s2.fields[(this, i["m"])] = v
                            nxt.append(s2)
                    elif "base" in i and i.get("written"):
                        for vs, s2 in (self.evs(i["e"]["args"], s) if i["e"] and i["e"]["k"] == "ctor" else [([], s)]):
                            s2.effects += (("basector", i["base"], tuple(self.snapshot(v, s2) for v in vs), i["e"].get("u") if i["e"] else None),)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                states = nxt
        for s in states:
            for o in self.ex(fn["body"], s):
                kind = o.status or "end"
                v = self.resolve(o.ret, o) if o.ret is not None else None
                outs.append(Outcome(kind, v, o))
        self.stack = []
        return outs
