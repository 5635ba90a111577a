"""Structured summaries of code emitters.

The body of a writer is folded, statement by statement, into a tree of emission events
(write / loop / if / push / return ...).  Integer and string variables are replaced by closed
forms over the loop indices: a variable that a loop increments by a constant is linear in the
index, one that is incremented by a loop-variant amount is a prefix sum.  The tree is valid for
every model the writer can be applied to; nothing is executed.
"""
from engine import subst, contains


class Opaque(Exception):
    pass


S = lambda s: ("s", s)
I = lambda n: ("int", n)
TRUE, FALSE = ("bool", True), ("bool", False)

# ------------------------------------------------------------------ integer normal forms
INT_OPS = ("+", "-", "*")


def poly(t):
    """term -> {monomial (sorted tuple of atoms): coefficient}"""
    k = t[0]
    if k in ("int", "bool"):
        return {(): int(t[1])} if t[1] else {}
    if k == "op" and t[1] == "+":
        return padd(poly(t[2]), poly(t[3]))
    if k == "op" and t[1] == "-":
        return padd(poly(t[2]), poly(t[3]), -1)
    if k == "op" and t[1] == "*":
        return pmul(poly(t[2]), poly(t[3]))
    if k == "neg":
        return padd({}, poly(t[1]), -1)
    if k == "psum":
        out = {}
        for m, c in poly(t[2]).items():
            inner = [a for a in m if varies(a, t[1])]
            outer = [a for a in m if not varies(a, t[1])]
            if not inner:
                out = padd(out, {tuple(sorted(outer + [("idx", t[1])], key=repr)): c})
            else:
                body = mono(inner)
                out = padd(out, {tuple(sorted(outer + [("psum", t[1], body)], key=repr)): c})
        return out
    if k == "total":
        out = {}
        for m, c in poly(t[3]).items():
            inner = [a for a in m if varies(a, t[1])]
            outer = [a for a in m if not varies(a, t[1])]
            if not inner:
                out = padd(out, pmul({tuple(sorted(outer, key=repr)): c}, poly(t[2])))
            else:
                out = padd(out, {tuple(sorted(outer + [("total", t[1], norm(t[2]), mono(inner))], key=repr)): c})
        return out
    return {(t,): 1}


def varies(a, loop):
    return contains(a, lambda x: x in (("idx", loop),))


def mono(atoms):
    t = atoms[0]
    for a in atoms[1:]:
        t = ("op", "*", t, a)
    return t


def padd(p, q, f=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + f * c
        if not r[m]:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def norm(t):
    """canonical integer term"""
    p = poly(t)
    out = None
    for m in sorted(p, key=repr):
        c = p[m]
        x = I(c) if not m else (mono(m) if c == 1 else ("op", "*", I(c), mono(m)))
        out = x if out is None else ("op", "+", out, x)
    return out or I(0)


def same(a, b):
    return not padd(poly(a), poly(b), -1)


def add(a, b):
    return norm(("op", "+", a, b))


def sub(a, b):
    return norm(("op", "-", a, b))


def cat(a, b):
    pa = list(a[1]) if a[0] == "cat" else [a]
    pb = list(b[1]) if b[0] == "cat" else [b]
    out = []
    for p in pa + pb:
        if p == S(""):
            continue
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = S(out[-1][1] + p[1])
        else:
            out.append(p)
    return S("") if not out else out[0] if len(out) == 1 else ("cat", tuple(out))


def pieces(t):
    return list(t[1]) if t[0] == "cat" else [t]


class Emitter:
    OPAQUE = ("getHeaderLine", "sortVariableVec", "split", "split2", "split_path")
    MAXDEPTH = 10

    def __init__(self, db, cls, owns):
        self.db, self.cls, self.owns = db, cls, owns
        self.nloop = self.nstream = self.nframe = 0
        self.loops = {}
        self.inlined = []
        self.opaque = []

    # -------------------------------------------------------------- entry
    def tree(self, fn, fields=None):
        self.out = []
        self.fields = dict(fields or {})
        self.env = {}
        self.frames = []
        self.call(fn, [("param", p["n"]) for p in fn["params"]], fn["l"])
        return self.out

    def call(self, fn, args, line):
        if len(self.frames) > self.MAXDEPTH:
            raise Opaque("recursion in " + fn["f"])
        self.nframe += 1
        fr = self.nframe
        self.frames.append((fr, fn))
        for p, a in zip(fn["params"], args):
            self.env[(fr, p["id"])] = a
        self.rets = []
        save = self.rets
        self.inlined.append(fn["f"])
        try:
            st, rets = self.block(fn["body"])
        finally:
            self.frames.pop()
        if not rets:
            return ("void",)
        v = rets[-1][1]
        for c, x in reversed(rets[:-1]):
            v = x if x == v else ("ite", c, x, v) if c is not None else v
        return v

    # -------------------------------------------------------------- statements
    # every statement returns (status, [(condition, returned value)])
    def block(self, n):
        if n["k"] != "block":
            return self.stmts([n])
        return self.stmts(n["s"])

    def stmts(self, ss):
        rets = []
        for i, s in enumerate(ss):
            if s is None:
                continue
            st, r = self.stmt(s, ss[i + 1:])
            rets += r
            if st is not None:
                return (None if st == "done" else st), rets
        return None, rets

    def stmt(self, s, rest):
        k = s["k"]
        if k == "block":
            return self.block(s)
        if k == "expr":
            self.ev(s["e"])
            return None, []
        if k == "null":
            return None, []
        if k == "decl":
            for v in s["v"]:
                self.declare(v)
            return None, []
        if k == "return":
            v = self.ev(s["e"]) if s.get("e") else ("void",)
            self.out.append(("return", v, s["l"]))
            return "return", [(None, v)]
        if k == "break":
            self.out.append(("break", s["l"]))
            return "break", []
        if k == "continue":
            return "continue", []
        if k == "if":
            return self.if_(s, rest)
        if k == "for":
            if s.get("init"):
                self.stmt(s["init"], [])
            return self.loop(s, s["c"], s["body"], s.get("inc"))
        if k == "while":
            return self.loop(s, s["c"], s["body"], None)
        if k == "rangefor":
            return self.rangefor(s)
        if k == "switch":
            return self.switch(s)
        if k == "try":
            return self.block(s["body"])
        self.opaque.append((k, s.get("l")))
        self.out.append(("opaque", k, s.get("l")))
        return None, []

    def declare(self, v):
        key = (self.frames[-1][0], v["id"])
        t = v["t"]
        i = v.get("i")
        base = t.replace("const ", "")
        if "stream" in base and "basic_" in base:
            if i is not None and t.endswith("&"):
                self.env[key] = self.ev(i)
                return
            self.nstream += 1
            self.env[key] = ("stream", self.nstream)
            if i is not None and i["k"] == "ctor" and i["args"]:
                self.out.append(("open", self.nstream, self.ev(i["args"][0]), v["l"]))
            else:
                self.out.append(("newstream", self.nstream, v["l"]))
            return
        if i is None or (i["k"] == "ctor" and not i["args"]):
            if base.startswith(("std::vector", "std::list", "std::set", "std::map", "std::deque")):
                self.nstream += 1
                self.env[key] = ("vec", self.nstream)
            elif base.startswith("std::basic_string"):
                self.env[key] = S("")
            else:
                self.env[key] = ("uninit", v["n"])
            return
        if t.endswith("&") and "const " not in t:
            l = self.lv(i)
            self.env[key] = ("ref", l) if l[0] == "V" else self.rd(l)
            return
        self.env[key] = self.ev(i)

    def if_(self, s, rest):
        if s.get("init"):
            self.stmt(s["init"], [])
        if s.get("var"):
            self.declare(s["var"])
        c = self.ev(s["c"])
        if c[0] == "bool":
            b = s["a"] if c[1] else s["b"]
            return self.stmt(b, []) if b is not None else (None, [])
        res = []
        out0, env0, f0 = self.out, self.env, self.fields
        for b in (s["a"], s["b"]):
            self.out, self.env, self.fields = [], dict(env0), dict(f0)
            st, r = self.stmt(b, []) if b is not None else (None, [])
            res.append((st, r, self.out, self.env, self.fields))
        self.out = out0
        A, B = res
        rets = [(c if x is None else ("and", c, x), v) for x, v in A[1]] + [(("not", c) if x is None else ("and", ("not", c), x), v) for x, v in B[1]]
        if A[0] and not B[0] or B[0] and not A[0]:
            # one branch leaves: what follows belongs to the other one
            live = B if A[0] else A
            self.out, self.env, self.fields = live[2], live[3], live[4]
            st, r = self.stmts(rest)
            rets += r
            dead = A if live is B else B
            if dead[0] == "continue" and st is None:
                st = "done"
            ev = ("if", c, A[2], B[2], s["l"])
            self.out = out0
            self.out.append(ev)
            return (st or "done"), rets
        if A[0] and B[0]:
            self.out.append(("if", c, A[2], B[2], s["l"]))
            self.env, self.fields = A[3], A[4]
            return A[0], rets
        if A[2] or B[2]:
            self.out.append(("if", c, A[2], B[2], s["l"]))
        self.env = self.merge(c, A[3], B[3])
        self.fields = self.merge(c, A[4], B[4])
        return None, rets

    def merge(self, c, a, b):
        r = dict(a)
        for k, v in b.items():
            if k in r and r[k] != v:
                r[k] = ("ite", c, r[k], v)
            else:
                r[k] = v
        return r

    def switch(self, s):
        c = self.ev(s["c"])
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        arms, cur = [], None
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(self.ev(x["v"]) if x["k"] == "case" else None)
                x = x["s"]
            if labels:
                cur = (labels, [])
                arms.append(cur)
            if x is not None and cur is not None:
                cur[1].append(x)
        rets = []
        out0, env0 = self.out, self.env
        for labels, ss in arms:
            self.out, self.env = [], dict(env0)
            st, r = self.stmts([x for x in ss if x["k"] != "break"])
            cond = ("or",) + tuple(("eq", c, l) if l is not None else TRUE for l in labels)
            rets += [(cond if q is None else ("and", cond, q), v) for q, v in r]
            out0.append(("if", cond, self.out, [], s["l"]))
        self.out, self.env = out0, env0
        return None, rets

    # -------------------------------------------------------------- loops
    def assigned(self, n):
        """keys of variables and fields a piece of code may change"""
        vs = set()

        def tgt(e):
            while e and e["k"] in ("cast", "ncast"):
                e = e["e"]
            if e and e["k"] == "ref" and e["d"] in ("var", "param"):
                vs.add((self.frames[-1][0], e["id"]))
            elif e and e["k"] == "mem":
                vs.add(("F", e["n"]))

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                if x.get("k") == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    tgt(x["a"])
                elif x.get("k") == "un" and x["op"] in ("++", "--"):
                    tgt(x["e"])
                elif x.get("k") == "call" and x.get("op") in ("++", "--", "=", "+="):
                    tgt(x.get("obj") or (x["args"][0] if x["args"] else None))
                elif x.get("k") == "call":
                    fn = self.db.funcs.get(x.get("u"))
                    if fn and self.owned(fn):
                        for p, a in zip(fn["params"], x["args"]):
                            if p["t"].endswith("&") and "const " not in p["t"]:
                                tgt(a)
                        for y in self.fieldwrites(fn):
                            vs.add(("F", y))
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        go(y)
        go(n)
        return vs

    def fieldwrites(self, fn, seen=()):
        if fn["u"] in seen:
            return set()
        save = self.frames
        self.frames = [(-1, fn)]
        try:
            r = {k[1] for k in self.assigned(fn["body"]) if k[0] == "F"}
        except RecursionError:
            r = set()
        finally:
            self.frames = save
        return r

    def getk(self, k):
        return self.fields.get(k[1]) if k[0] == "F" else self.env.get(k)

    def setk(self, k, v):
        if k[0] == "F":
            self.fields[k[1]] = v
        else:
            self.env[k] = v

    def loop(self, n, cond, body, inc, coll=None, var=None):
        self.nloop += 1
        L = self.nloop
        keys = []
        for k in sorted(self.assigned([cond, body, inc]), key=repr):
            v = self.getk(k)
            while v is not None and v[0] == "ref":
                k = v[1][1]
                v = self.getk(k)
            if v is None and k[0] == "F":
                v = ("fld", k[1])
            if v is None or v[0] in ("stream", "vec"):
                continue
            keys.append((k, v))
        for k, v in keys:
            a = ("acc", L, k)
            self.setk(k, ("it", v[1], a) if v[0] == "it" else a)
        out0 = self.out
        self.out = []
        if coll is not None:
            self.env[(self.frames[-1][0], var["id"])] = ("at", coll, ("idx", L))
            c = None
        else:
            c = self.ev(cond) if cond is not None else TRUE
        st, rets = self.block(body) if body is not None else (None, [])
        if inc is not None:
            self.ev(inc)
        evs = self.out
        self.out = out0
        closed, after, steps, lines = {}, {}, {}, n.get("l")
        late = []
        for k, v0 in keys:
            new = self.getk(k)
            a = ("acc", L, k)
            it = v0[0] == "it"
            if it:
                if new[0] != "it" or new[1] != v0[1]:
                    closed[a], after[k] = ("varying", L, k), ("varying", L, k)
                    continue
                new, init = new[2], v0[2]
            else:
                init = v0
            if new == a:
                closed[a] = init
                after[k] = v0
                continue
            try:
                d = sub(new, a)
            except Exception:
                d = None
            mine = lambda t: contains(t, lambda x: x == a)
            if d is not None and not mine(d) and new[0] not in ("s", "cat", "bool", "ite"):
                steps[k] = (init, d)
                late.append((k, init, d, it, v0))
            elif new[0] in ("cat", "ite") and mine(new) or new[0] == "cat":
                parts = pieces(new)
                if parts and parts[0] == a and not any(mine(p) for p in parts[1:]):
                    closed[a] = ("cat", (init, ("rep", L, ("cat", tuple(parts[1:])))))
                    after[k] = closed[a]
                else:
                    closed[a], after[k] = ("varying", L, k), ("varying", L, k)
            elif not mine(new):
                closed[a] = ("ite", ("first", L), init, ("prev", L, new)) if new[0] not in ("bool", "int") else ("ite", ("first", L), init, new)
                after[k] = ("last", L, new, init)
            else:
                closed[a], after[k] = ("varying", L, k), ("varying", L, k)
        # constant steps first, they are linear in the index
        for k, init, d, it, v0 in sorted(late, key=lambda x: x[2][0] != "int"):
            closed[("acc", L, k)] = add(init, ("op", "*", d, ("idx", L))) if d[0] == "int" else None
        for k, init, d, it, v0 in late:
            if closed[("acc", L, k)] is None:
                dd = subst(d, {x: y for x, y in closed.items() if y is not None})
                if contains(dd, lambda x: x[:2] == ("acc", L) if isinstance(x, tuple) and len(x) > 1 else False):
                    closed[("acc", L, k)] = ("varying", L, k)
                else:
                    closed[("acc", L, k)] = add(init, ("psum", L, dd))
        if coll is not None:
            count = ("size", coll)
        else:
            count = self.count(L, c, closed, steps)
        partial = any(e[0] == "break" for e in flat(evs)) or st in ("break", "return")
        if partial:
            count = ("upto", count)
        for k, init, d, it, v0 in late:
            cl = closed[("acc", L, k)]
            if cl[0] == "varying" or count[0] in ("upto", "unknown"):
                a = ("varying", L, k)
            elif d[0] == "int":
                a = add(init, ("op", "*", d, count))
            else:
                a = add(init, ("total", L, count, subst(d, {x: y for x, y in closed.items() if y})))
            after[k] = ("it", v0[1], a) if it else a
        evs = subst_events(evs, closed)
        rets = [(None if q is None else subst(q, closed), subst(v, closed)) for q, v in rets]
        for k, v in after.items():
            self.setk(k, self.fix(subst(v, closed)))
        self.loops[L] = dict(count=count, line=lines, coll=coll)
        self.out.append(("loop", L, count, evs, lines))
        return None, rets

    def fix(self, t):
        return t

    def count(self, L, c, closed, steps):
        """trip count from the continuation condition"""
        if c is None or c[0] not in ("lt", "le", "ne", "gt", "ge"):
            return ("unknown", L)
        a, b = c[1], c[2]
        op = c[0]
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            a, b = a[2], b[2]
        accs = [x for x in steps if contains(a, lambda y: y == ("acc", L, x))]
        if not accs:
            a, b = b, a
            op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "ne": "ne"}[op]
            accs = [x for x in steps if contains(a, lambda y: y == ("acc", L, x))]
        if len(accs) != 1:
            return ("unknown", L)
        k = accs[0]
        init, d = steps[k]
        m = ("acc", L, k)
        rest = sub(a, m)
        if contains(rest, lambda y: y == m) or contains(b, lambda y: isinstance(y, tuple) and len(y) > 1 and y[0] == "acc" and y[1] == L):
            return ("unknown", L)
        bound = sub(b, rest)
        if d == I(1) and op in ("lt", "ne"):
            return sub(bound, init)
        if d == I(1) and op == "le":
            return add(sub(bound, init), I(1))
        if d == I(-1) and op in ("gt", "ne"):
            return sub(init, bound)
        if d == I(-1) and op == "ge":
            return add(sub(init, bound), I(1))
        return ("unknown", L)

    def rangefor(self, s):
        c = self.ev(s["range"])
        return self.loop(s, None, s["body"], None, coll=c, var=s["var"])

    # -------------------------------------------------------------- locations
    def lv(self, e):
        k = e["k"]
        if k in ("cast", "ncast"):
            return self.lv(e["e"])
        if k == "ref" and e["d"] in ("var", "param"):
            key = (self.frames[-1][0], e["id"])
            v = self.env.get(key)
            while v is not None and v[0] == "ref":
                key = v[1][1]
                v = self.getk(key)
            return ("V", key)
        if k == "mem" and e["b"]["k"] == "this":
            return ("V", ("F", e["n"]))
        return ("T", e)

    def rd(self, l):
        if l[0] == "V":
            v = self.getk(l[1])
            if v is None and l[1][0] == "F":
                return ("fld", l[1][1])
            return v if v is not None else ("unbound",)
        return self.ev(l[1])

    def wr(self, l, v):
        if l[0] == "V":
            self.setk(l[1], v)
        else:
            e = l[1]
            if e["k"] in ("idx",) or e["k"] == "call" and e.get("op") == "[]":
                base = e.get("b") or e.get("obj") or e["args"][0]
                ix = e.get("i") or e["args"][-1]
                self.out.append(("store", self.ev(base), self.ev(ix), v, e.get("l")))
            else:
                self.out.append(("store", self.ev(e), None, v, e.get("l")))

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            return ("void",)
        m = getattr(self, "ev_" + e["k"], None)
        if m is None:
            return ("opaque", e["k"], e.get("l"))
        return m(e)

    def ev_int(self, e): return I(e["v"])
    def ev_float(self, e): return ("real", float(e["v"]))
    def ev_str(self, e): return S(e["v"])
    def ev_char(self, e): return S(chr(e["v"]) if isinstance(e["v"], int) else e["v"])
    def ev_bool(self, e): return ("bool", e["v"])
    def ev_nullptr(self, e): return ("null",)
    def ev_this(self, e): return ("this",)

    def ev_zeroinit(self, e): return I(0)

    def ev_lambda(self, e):
        self.lams = getattr(self, "lams", [])
        if any(not c.get("ref") for c in e.get("capv", ())) or not self.frames:
            return ("opaque", "lambda", e.get("l"))
        self.lams.append((e, self.frames[-1]))
        return ("lambda", len(self.lams) - 1)

    def call_lambda(self, k, args):
        e, (fr, fn) = self.lams[k]
        if len(self.frames) > self.MAXDEPTH + 4:
            raise Opaque("recursion in a lambda")
        self.frames.append((fr, fn))
        for p, a in zip(e["params"], args):
            self.env[(fr, p["id"])] = a
        try:
            st, rets = self.block(e["body"])
        finally:
            self.frames.pop()
        if not rets:
            return ("void",)
        v = rets[-1][1]
        for c, x in reversed(rets[:-1]):
            v = x if x == v else ("ite", c, x, v) if c is not None else v
        return v

    def ev_ref(self, e):
        if e["d"] in ("var", "param"):
            return self.rd(self.lv(e))
        if e["d"] == "enum":
            return ("enum", e["n"], e["v"])
        if e["d"] == "func":
            return ("func", e.get("q") or e.get("n") or e.get("f") or "?")
        q = e.get("q") or e.get("n") or e.get("f") or "?"
        g = [x for x in self.db.globals.values() if x["f"] == q]
        if g and g[0].get("i") and "const" in g[0].get("t", "const"):
            return self.ev(g[0]["i"])
        return ("glob", q)

    def ev_mem(self, e):
        if e["b"]["k"] == "this":
            return self.rd(("V", ("F", e["n"])))
        b = self.ev(e["b"])
        if b[0] == "it":
            b = ("at", b[1], b[2])
        return ("fld", b, e["n"])

    def ev_cast(self, e): return self.ev(e["e"])
    def ev_ncast(self, e): return self.ev(e["e"])

    def ev_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            l = self.lv(e["e"])
            old = self.rd(l)
            new = self.step(old, 1 if op == "++" else -1)
            self.wr(l, new)
            return old if e.get("post") else new
        v = self.ev(e["e"])
        if op == "*":
            return ("at", v[1], v[2]) if v[0] == "it" else v
        if op == "&" or op == "+":
            return v
        if op == "!":
            return neg(v)
        if op == "-":
            return norm(("neg", v)) if v[0] != "real" else ("real", -v[1])
        return ("opaque", op, e["l"])

    def step(self, v, d):
        if v[0] == "it":
            return ("it", v[1], add(v[2], I(d)))
        return add(v, I(d))

    def ev_cond(self, e):
        c = self.ev(e["c"])
        if c[0] == "bool":
            return self.ev(e["a"] if c[1] else e["b"])
        a, b = self.ev(e["a"]), self.ev(e["b"])
        return a if a == b else ("ite", c, a, b)

    def ev_bin(self, e):
        op = e["op"]
        if op == "=":
            v = self.ev(e["b"])
            self.wr(self.lv(e["a"]), v)
            return v
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            l = self.lv(e["a"])
            v = self.arith(op[:-1], self.rd(l), self.ev(e["b"]), e.get("t", ""))
            self.wr(l, v)
            return v
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        return self.arith(op, self.ev(e["a"]), self.ev(e["b"]), e.get("t", ""))

    def arith(self, op, a, b, t=""):
        if op in ("+", "-") and a[0] == "it" and b[0] != "it":
            return ("it", a[1], add(a[2], b) if op == "+" else sub(a[2], b))
        if op == "+" and (a[0] in ("s", "cat") or b[0] in ("s", "cat") or "string" in t):
            return cat(a, b)
        if op in ("+", "-", "*"):
            return norm(("op", op, a, b))
        if op == "|" and mask(a) is not None and mask(b) is not None:
            return ("mask", mask(a) | mask(b))
        if op == "&" and a[0] == b[0] == "mask":
            return ("mask", a[1] & b[1])
        if op == "&&":
            return a if b == TRUE else b if a == TRUE else FALSE if FALSE in (a, b) else ("and", a, b)
        if op == "||":
            return a if b == FALSE else b if a == FALSE else TRUE if TRUE in (a, b) else ("or", a, b)
        names = {"<": "lt", "<=": "le", "==": "eq", "!=": "ne", ">": "gt", ">=": "ge"}
        if op in names:
            if a[0] == b[0] and a[0] in ("int", "bool", "s", "enum"):
                x, y = a[-1], b[-1]
                return ("bool", {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y, ">": x > y, ">=": x >= y}[op])
            if a[0] == "it" and b[0] == "it" and a[1] == b[1] and op in ("==", "!=") and same(a[2], b[2]):
                return ("bool", op == "==")
            return (names[op], a, b)
        return ("op", op, a, b)

    def ev_idx(self, e):
        return ("at", self.ev(e["b"]), self.ev(e["i"]))

    def ev_init(self, e):
        return ("init",) + tuple(self.ev(x) for x in e["e"])

    def ev_throw(self, e):
        self.out.append(("throw", e["l"]))
        return ("void",)

    def ev_new(self, e):
        i = e.get("init")
        return ("new", e.get("t"), self.ev(i) if i else ("void",))

    def ev_delete(self, e):
        return ("void",)

    def ev_ctor(self, e):
        a = [self.ev(x) for x in e["args"]]
        c = e["c"]
        if c.startswith("std::basic_string") and not c.startswith("std::basic_stringstream"):
            return a[0] if a else S("")
        if len(a) == 1 and ("intrusive_ptr" in c or "vector" in c or "iterator" in c or "Shape" in c):
            return a[0]
        return ("ctor", c) + tuple(a)

    def ev_icall(self, e):
        return ("opaque", "icall", e["l"])

    def owned(self, fn):
        return self.owns(fn) and fn["n"] not in self.OPAQUE and fn.get("body") is not None

    def target(self, e):
        fn = self.db.funcs.get(e.get("u"))
        if fn is None and e.get("u") and self.frames:
            fn = self.db.funcs.get(e["u"] + "@" + self.frames[-1][1]["file"])
        if fn is not None and fn.get("virt") or (fn is None and e.get("virt")):
            g = self.db.resolve_virtual(self.cls, e["u"], e["f"].split("::")[-1])
            fn = g or fn
        return fn

    def ev_call(self, e):
        f = e.get("f", "?")
        n = f.split("::")[-1]
        op = e.get("op")
        if op == "<<":
            return self.shift(e)
        obj = e.get("obj")
        if op in ("=", "+=", "++", "--", "-="):
            t = obj or e["args"][0]
            args = e["args"] if obj else e["args"][1:]
            l = self.lv(t)
            if op == "=":
                v = self.ev(args[0])
            elif op in ("++", "--"):
                old = self.rd(l)
                v = self.step(old, 1 if op == "++" else -1)
                self.wr(l, v)
                return v if not args else old
            else:
                old = self.rd(l)
                x = self.ev(args[0])
                v = ("it", old[1], add(old[2], x)) if old[0] == "it" else cat(old, x)
            self.wr(l, v)
            return v
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "&&", "||") and f.split("::")[0] in ("std", "__gnu_cxx", "boost"):
            a = [self.ev(x) for x in ([obj] if obj else []) + e["args"]]
            if len(a) == 2:
                return self.arith(op, a[0], a[1], e.get("t", ""))
        if op in ("*", "->") and (obj is not None and not e["args"] or obj is None and len(e["args"]) == 1):
            v = self.ev(obj or e["args"][0])
            return ("at", v[1], v[2]) if v[0] == "it" else v
        if op == "[]":
            b = self.ev(obj or e["args"][0])
            return ("at", b, self.ev(e["args"][-1]))
        if op == "()" and obj is not None:
            o = self.ev(obj)
            if o[0] == "lambda":
                args = []
                for p, a in zip(self.lams[o[1]][0]["params"], e["args"]):
                    args.append(self.byref(a) if p["t"].endswith("&") and "const " not in p["t"] else self.ev(a))
                return self.call_lambda(o[1], args)
            return ("call", "()", self.ev(obj)) + tuple(self.ev(a) for a in e["args"])
        if f in ("std::sort", "std::stable_sort"):
            a = [self.ev(x) for x in e["args"]]
            if a[0][0] == "it" and a[1][0] == "it" and a[0][1] == a[1][1] and a[0][2] == I(0) and same(a[1][2], ("size", a[0][1])):
                self.resort(a[0][1], ("sorted", a[2] if len(a) > 2 else ("func", "<"), a[0][1]))
            else:
                self.out.append(("opaque", "partial sort", e["l"]))
            return ("void",)
        if f in ("std::reverse", "std::random_shuffle", "std::shuffle", "std::rotate", "std::unique", "std::remove", "std::remove_if"):
            a = [self.ev(x) for x in e["args"]]
            if a[0][0] == "it":
                self.resort(a[0][1], (n, a[0][1]))
            return ("void",)
        if f in ("std::swap", "std::iter_swap"):
            a = [self.ev(x) for x in e["args"]]
            if a[0][0] == "it":
                self.resort(a[0][1], ("swapped", a[0][1]))
            return ("void",)
        if f in ("str", "Symbolics::str", "std::to_string") or n == "str" and obj is None and len(e["args"]) == 1:
            return self.ev(e["args"][0])
        fn = self.target(e)
        if fn is not None and self.owned(fn) and (obj is None or obj["k"] == "this" or fn.get("static")):
            args = []
            for p, a in zip(fn["params"], e["args"]):
                args.append(self.byref(a) if p["t"].endswith("&") and "const " not in p["t"] else self.ev(a))
            try:
                return self.call(fn, args, e["l"])
            except Opaque as o:
                self.out.append(("opaque", str(o), e["l"]))
                return ("opaque", n, e["l"])
        o = self.ev(obj) if obj is not None else None
        if o is not None and o[0] == "it" and n not in ("base",):
            o = ("at", o[1], o[2])
        a = [self.ev(x) for x in e["args"]]
        if o is not None and o[0] == "stream":
            if n == "open":
                self.out.append(("open", o[1], a[0], e["l"]))
            elif n == "close":
                self.out.append(("close", o[1], e["l"]))
            elif n in ("str", "rdbuf"):
                return ("streamtext", o[1])
            elif n in ("is_open", "good", "fail", "bad", "operator!", "operator bool", "eof"):
                return ("call", n, o)
            elif n in ("put", "write"):
                self.out.append(("write", o[1], a[0], e["l"]))
            return o
        if n in ("begin", "cbegin"):
            return ("it", o, I(0))
        if n in ("end", "cend"):
            return ("it", o, ("size", o))
        if n in ("size", "length") and not a:
            return ("size", o) if o[0] not in ("s",) else I(len(o[1]))
        if n == "empty" and not a:
            return ("eq", ("size", o), I(0)) if o[0] != "s" else ("bool", not o[1])
        if n == "at" and len(a) == 1:
            return ("at", o, a[0])
        if n == "front":
            return ("at", o, I(0))
        if n == "back":
            return ("at", o, sub(("size", o), I(1)))
        if n in ("push_back", "push_front", "insert", "emplace_back"):
            self.out.append(("push", o, a[-1] if n != "insert" else ("tuple",) + tuple(a), n, e["l"]))
            return ("void",)
        if n in ("erase", "clear", "pop_back", "pop_front", "assign", "resize", "swap") and o is not None and o[0] not in ("s", "cat"):
            self.resort(o, (n, o) + tuple(a))
            return ("void",)
        if n in ("c_str", "get", "data") and not a:
            return o
        if n in ("abs", "fabs") or f.startswith("std::"):
            return ("call", n) + ((o,) if o is not None else ()) + tuple(a)
        return ("call", n) + ((o,) if o is not None else ()) + tuple(a)

    def byref(self, a):
        l = self.lv(a)
        v = self.rd(l) if l[0] == "V" else self.ev(a)
        return v if v[0] in ("stream", "vec") or l[0] != "V" else ("ref", l)

    def resort(self, old, new):
        for d in (self.env, self.fields):
            for k, v in list(d.items()):
                if v == old:
                    d[k] = new
        self.out.append(("reorder", old, new))

    def shift(self, e):
        args = ([e["obj"]] if e.get("obj") else []) + e["args"]
        s = self.ev(args[0])
        x = args[1]
        if x["k"] == "ref" and x.get("d") == "func" or x["k"] == "cast" and x["e"].get("d") == "func":
            q = (x if x["k"] == "ref" else x["e"])
            v = S("\n") if "endl" in (q.get("q") or q.get("n") or q.get("f") or "") else S("")
        else:
            v = self.ev(x)
            if v[0] == "func":
                v = S("\n") if "endl" in v[1] else S("")
        if s[0] == "stream":
            self.out.append(("write", s[1], v, e["l"]))
        elif s[0] == "glob":
            self.out.append(("message", s[1], v, e["l"]))
        else:
            self.out.append(("write", s, v, e["l"]))
        return s


def mask(t):
    if t[0] == "mask":
        return t[1]
    if t[0] == "enum":
        return frozenset([t[1]])
    if t[0] in ("fld", "glob"):
        return frozenset([str(t[-1]).split("::")[-1]])
    return None


def neg(v):
    if v[0] == "bool":
        return ("bool", not v[1])
    if v[0] == "not":
        return v[1]
    o = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
    if v[0] in o:
        return (o[v[0]], v[1], v[2])
    return ("not", v)


def flat(evs):
    for e in evs:
        yield e
        if e[0] == "loop":
            for x in flat(e[3]):
                yield x
        elif e[0] == "if":
            for x in flat(e[2]):
                yield x
            for x in flat(e[3]):
                yield x


def subst_events(evs, m):
    out = []
    for e in evs:
        if e[0] == "loop":
            out.append(("loop", e[1], subst(e[2], m), subst_events(e[3], m), e[4]))
        elif e[0] == "if":
            out.append(("if", subst(e[1], m), subst_events(e[2], m), subst_events(e[3], m), e[4]))
        else:
            out.append(tuple(renorm(subst(x, m)) if isinstance(x, tuple) else x for x in e))
    return out


def renorm(t):
    """integer sub-terms again in normal form after a substitution"""
    if t[0] == "op" and t[1] in INT_OPS:
        return norm(t)
    if t[0] in ("cat", "call", "at", "ite", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "it"):
        return tuple(renorm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(renorm(y) for y in x) if isinstance(x, tuple) and t[0] == "cat" else x for x in t)
    return t


# ------------------------------------------------------------------ display
def show(t):
    k = t[0] if isinstance(t, tuple) and t else None
    if k == "s":
        return repr(t[1])
    if k in ("int", "real", "bool"):
        return str(t[1])
    if k == "cat":
        return "+".join(show(x) for x in t[1])
    if k == "enum":
        return t[1]
    if k == "mask":
        return "|".join(sorted(t[1]))
    if k == "op":
        return "(%s%s%s)" % (show(t[2]), t[1], show(t[3]))
    if k == "idx":
        return "i%d" % t[1]
    if k == "at":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)" % (t[1], ",".join(show(x) for x in t[2:]))
    if isinstance(t, tuple):
        return "%s(%s)" % (k, ",".join(show(x) for x in t[1:]))
    return str(t)


def dump(evs, ind=0, out=None):
    out = [] if out is None else out
    p = "  " * ind
    for e in evs:
        if e[0] == "loop":
            out.append("%sloop %d x %s" % (p, e[1], show(e[2])))
            dump(e[3], ind + 1, out)
        elif e[0] == "if":
            out.append("%sif %s" % (p, show(e[1])))
            dump(e[2], ind + 1, out)
            if e[3]:
                out.append("%selse" % p)
                dump(e[3], ind + 1, out)
        elif e[0] == "write":
            out.append("%sw%s %s" % (p, e[1], show(e[2])))
        else:
            out.append("%s%s" % (p, " ".join(show(x) if isinstance(x, tuple) else str(x) for x in e)))
    return out
