"""Conservation analysis of rewriting functions that are written as a sequence of loops.

A loop is never unrolled.  Its summary (engine.py) is a set of transitions over the
loop-carried locations.  Every location that carries expressions gets a measure - the value
it contributes to the whole: the sum (product, in order) of a list, the value of an
accumulator, sum of k*v of a map, (-1) for a raised sign flag.  Obligations:

  entry    what the node / the previous loop's result is worth is what the loop starts from
           (its accumulators plus the elements it is going to visit)
  step     on every path of the body, accumulators after = accumulators before + element
  exit     a path that leaves the loop early returns what the whole is worth
  result   after the last loop, the returned expression (and the node left behind) is worth
           what the last loop's accumulators are worth

so the argument is an induction over the number of elements; each equality is an identity
between closed forms over free elements, decided by random interpretation.
"""
import itertools
import random

import numpy as np

import engine as EN
import sem
from engine import I, show
from sem import V, Unknown, Skip, h


class Acc:
    __slots__ = ("key", "kid", "kind", "init", "phi", "scalar")

    def __init__(self, key, kid, kind, init, phi):
        self.key, self.kid, self.kind, self.init, self.phi = key, kid, kind, init, phi
        self.scalar = False


def top_loops(outs):
    """loops executed on some path, outermost level, in execution order"""
    seen = []
    for o in outs:
        for l in o.st.trace:
            if l not in seen:
                seen.append(l)
    return seen


def is_matrix_key(init):
    return isinstance(init, tuple) and init and init[0][0:1] == ("ctor",) and "Matrix" in str(init[0][1])


def classify(E, L):
    accs = []
    for key, (init, phi) in L.phis.items():
        kid = L.kid[key]
        vals = [t[1][kid] for t in L.trans]
        if getattr(L, "var", None) == key:
            continue
        if key[0] == "H":
            if is_matrix_key(init):
                accs.append(Acc(key, kid, "matrix", init, phi))
                continue
            pv = ("prev", L.id, kid)
            dom = L.domain and EN.contains(L.domain["stop"], lambda x: x == pv)
            ops = [x for v in vals for x in v[1:]]
            if dom:
                kind = "dom"
            elif any(x[0] == "set" for x in ops):
                kind = "map"
            else:
                kind = "seq"
            if any(not v or v[0] != pv for v in vals):
                kind = "reset"
            accs.append(Acc(key, kid, kind, init, phi))
            continue
        if phi[0] == "it":
            continue
        idx = [v for v in vals if v != phi and not (v[0] == "op" and v[1] in "+-" and v[2] == phi and v[3][0] == "int") and v[0] != "int"]
        if not idx and all(v == phi or v[0] in ("op", "int") for v in vals):
            continue
        if all(v == phi or v[0] == "bool" or v == ("not", phi) or v[0] == "not" and v[1] == phi for v in vals):
            accs.append(Acc(key, kid, "bool", init, phi))
        elif init is not None and (init[0] in ("bool",)):
            accs.append(Acc(key, kid, "bool", init, phi))
        elif init[0] in ("uninit",) and all(v == phi or v[0] == "bool" for v in vals):
            accs.append(Acc(key, kid, "bool", init, phi))
        else:
            accs.append(Acc(key, kid, "expr", init, phi))
    return accs


def abstract(E, L, accs):
    if any(a.kind == "matrix" for a in accs):
        return False
    return len(L.trans) > 1 or any(t[3] for t in L.trans) or any(a.kind in ("expr", "map") for a in accs)


class CWorld(sem.World):
    """valuation in which the results of the summarised loops are free"""
    ctx = None

    def idxmap(self):
        m = dict(self.ctx.rename)
        m.update(sem.World.idxmap(self))
        return m

    def val(self, t):
        if not self.idx:
            t = EN.subst(t, self.ctx.rename)
        return sem.World.val(self, t)

    def key_seq(self, o):
        """(loop, kid) when o denotes the content of an abstract loop's list"""
        if o[0] in ("prev", "map", "loopseq") and o[1] in self.ctx.accs and any(a.kid == o[2] for a in self.ctx.accs[o[1]]):
            return (o[1], o[2])
        return None

    def count(self, o):
        if ("n", o) in self.arity:
            return self.arity[("n", o)]
        return random.Random(h("cnt", self.n, o)).choice((0, 1, 1, 2, 2, 3))

    def items(self, o):
        a = self.ctx.acc(o[1], o[2])
        if a.kind == "map":
            raise Unknown("map read as list")
        if a.kind in ("dom", "reset") and o[0] != "prev":
            raise Unknown("list whose content is not tracked")
        if a.kind == "seq" and o[0] != "prev" and self.flag_default(a):
            return self.seq_ops(a.init)
        return [self.val(("at", ("seqv", (o,)), I(i))) for i in range(self.count(o))]

    def pairs(self, o):
        x = lambda i, f: self.val(("fld", ("at", ("seqv", (o,)), I(i)), f))
        return [(x(i, "first"), x(i, "second")) for i in range(self.count(o))]

    def flag_default(self, a):
        """accumulators that only change together with a flag"""
        for b in self.ctx.guarded.get((self.ctx.loop_of[id(a)], a.kid), ()):
            if self.bools(("loopval", self.ctx.loop_of[id(a)], b.kid)) == (b.init[1] if b.init[0] == "bool" else None):
                return True
        return False

    def bools(self, t):
        if t in self.boolforce:
            return self.boolforce[t]
        return random.Random(h("b", self.n, t)).random() < 0.5

    def guard0(self, a):
        if a[0] == "truth" and a[1][0] in ("loopval", "phi") and self.ctx.is_bool(a[1]):
            return self.bools(a[1])
        if a[0] == "truth" and a[1][0] == "call" and a[1][1] == "Util::is_Const":
            return None
        if a[0] == "truth" and a[1][0] == "has":
            return None
        return sem.World.guard0(self, a)

    def harmless(self, a):
        return a[0] == "truth" and (a[1][0] == "has" or a[1][0] == "call" and a[1][1] == "Util::is_Const") or sem.World.harmless(self, a)

    def consistent(self, guards):
        # types of free elements follow the path's facts, whatever name the element has there
        un = sem.World.consistent(self, [(EN.subst(a, self.ctx.rename), b) for a, b in guards])
        return un

    def leaf_shape(self, c):
        if self.ctx.scalar_leaf(c):
            return (1, 1)
        return sem.World.leaf_shape(self, c)

    def val0(self, t):
        if t[0] == "loopval" and t[1] in self.ctx.accs:
            a = self.ctx.acc(t[1], t[2])
            if a is None or a.kind != "expr":
                raise Unknown("loop value")
            if self.flag_default(a):
                return self.val(a.init)
            return self.leaf(t) if self.tagname(t) is None else self.by_tag(self.tagname(t), t)
        if t[0] == "at" and t not in self.force:
            s = t[1]
            if s[0] == "seqv" and len(s[1]) > 1 and t[2][0] == "int":
                # position inside a concatenation: use the part it falls into
                xs = self.locate(s[1], t[2][1])
                if xs is not None:
                    if EN.contains(xs, lambda y: y[0:1] == ("at",)) and self.tagname(t) is not None:
                        ts = self.tags(t)
                        self.st.types[xs] = self.st.types.get(xs, self.E.alltags) & ts
                    return self.val(xs)
            if s[0] == "seqv" and len(s[1]) == 1 and self.key_seq(s[1][0]):
                if t[2][0] == "int" and self.ctx.acc(s[1][0][1], s[1][0][2]).kind == "seq":
                    if not 0 <= t[2][1] < self.count(s[1][0]):
                        raise Skip("index")
                tn = self.tagname(t)
                return self.leaf(t) if tn is None else self.by_tag(tn, t)
            if s[0] == "seqv" and t[2][0] in ("idx", "phi"):
                tn = self.tagname(t)
                return self.leaf(t) if tn is None else self.by_tag(tn, t)
        return sem.World.val0(self, t)

    def shape_num(self, t):
        if t[0] == "size" and t[1][0] == "seqv":
            n = self.length(t[1][1])
            if n is not None:
                return n
        return sem.World.shape_num(self, t)

    def length(self, ops):
        """length of a list whose contents need not be evaluated"""
        n = 0
        for o in ops:
            if o[0] in ("item", "front", "insat"):
                n += 1
            elif o[0] in ("reserve", "sort", "set", "put"):
                pass
            elif self.key_seq(o):
                a = self.ctx.acc(o[1], o[2])
                if a.kind in ("dom", "reset") and o[0] != "prev":
                    return None
                if a.kind == "seq" and o[0] != "prev" and self.flag_default(a):
                    k = self.length(a.init)
                    if k is None:
                        return None
                    n += k
                else:
                    n += self.count(o)
            elif o[0] == "copy" and o[1][0] == "seqv":
                k = self.length(o[1][1])
                if k is None:
                    return None
                n += k
            elif o[0] == "map":
                L = self.E.loops[o[1]]
                if len(L.trans) != 1 or L.trans[0][1][o[2]][:1] != (("prev", o[1], o[2]),):
                    return None
                k = self.length(L.trans[0][1][o[2]][1:])
                if k is None:
                    return None
                n += k * len(self.comp_range(L))
            else:
                return None
        return n

    def locate(self, ops, i):
        """term at position i of a list made of items and free lists"""
        cells = self.cells(ops)
        if cells is None:
            return None
        if not 0 <= i < len(cells):
            raise Skip("index")
        return cells[i]

    def cells(self, ops):
        cells = []
        for o in ops:
            if o[0] == "item":
                cells.append(o[1])
            elif o[0] == "front":
                cells.insert(0, o[1])
            elif o[0] in ("reserve", "sort"):
                pass
            elif self.key_seq(o):
                a = self.ctx.acc(o[1], o[2])
                if a.kind != "seq" or self.flag_default(a):
                    return None
                cells += [("at", ("seqv", (o,)), I(k)) for k in range(self.count(o))]
            elif o[0] == "copy" and o[1][0] == "seqv":
                xs = self.cells(o[1][1])
                if xs is None:
                    return None
                cells += xs
            else:
                return None
        return cells

    def seq_ops(self, ops):
        out = []
        rest = []
        for n, o in enumerate(ops):
            if o[0] == "sort":
                if not all(x.scalar() for x in out):
                    raise Unknown("sorting")
                continue
            if self.key_seq(o):
                out += self.items(o)
            elif o[0] == "front":
                out.insert(0, self.val(o[1]))
            elif o[0] in ("set", "put"):
                i = self.num_int(o[1])
                if not 0 <= i < len(out):
                    raise Skip("index")
                out[i] = self.val(o[2])
            else:
                out += sem.World.seq_ops(self, (o,))
        return out


class Ctx:
    def __init__(self, E, combine):
        self.E = E
        self.accs = {}
        self.loop_of = {}
        self.rename = {}
        self.guarded = {}
        self.combine = combine

    def acc(self, l, kid):
        for a in self.accs.get(l, ()):
            if a.kid == kid:
                return a
        return None

    def is_bool(self, t):
        a = self.acc(t[1], t[2])
        return a is not None and a.kind == "bool"

    def scalar_leaf(self, c):
        """element of a list (map value) that only ever receives scalars"""
        if c[0] == "fld" and c[2] == "second":
            c2 = c[1]
            if c2[0] == "at" and c2[1][0] == "seqv" and len(c2[1][1]) == 1:
                a = self.acc(*c2[1][1][0][1:3]) if c2[1][1][0][0] in ("map", "prev", "loopseq") else None
                return a is not None and a.kind == "map" and a.scalar
        if c[0] == "at" and c[1][0] == "seqv" and len(c[1][1]) == 1 and c[1][1][0][0] in ("map", "prev", "loopseq"):
            a = self.acc(c[1][1][0][1], c[1][1][0][2])
            return a is not None and a.scalar
        if c[0] in ("loopval", "phi"):
            a = self.acc(c[1], c[2])
            return a is not None and a.kind == "expr" and a.scalar
        return False


ADD = dict(total=lambda xs: sem.addn(xs) if xs else sem.const(0), name="sum")
MUL = dict(total=lambda xs: sem.muln(xs) if xs else sem.const(1), name="product")


class Analysis:
    def __init__(self, E, outs, fn, this, mode, tries=240, want=5):
        self.E, self.outs, self.fn, self.this, self.mode = E, outs, fn, this, mode
        self.tries, self.want = tries, want
        self.ctx = Ctx(E, mode)
        self.res = []       # (case, status, detail, line, rule)
        self.stcache = {}
        self.seen = {}
        self.layout = {}    # loop -> (order of accumulators, sign keys)

    # ------------------------------------------------------------ equal obligations are decided once
    IDS = ("prev", "map", "loopseq", "loopval", "phi", "idx", "loop", "rep")

    def sig(self, *ts):
        """term up to the numbering of loops and objects"""
        num = {}
        pend = []

        def f(t):
            if not isinstance(t, tuple):
                if isinstance(t, (list, dict)):
                    return repr(t)
                return t
            if t and t[0] in self.IDS and len(t) > 1 and isinstance(t[1], int):
                if t[1] not in num:
                    num[t[1]] = len(num)
                    pend.append(t[1])
                return (t[0], "L%d" % num[t[1]]) + tuple(f(x) for x in t[2:])
            if t and t[0] == "obj" and len(t) == 2:
                k = ("o", t[1])
                if k not in num:
                    num[k] = len(num)
                return ("obj", num[k])
            return tuple(f(x) for x in t)
        out = [f(t) for t in ts]
        done = 0
        while done < len(pend):
            L = self.E.loops[pend[done]]
            done += 1
            d = L.domain or {}
            out.append((f(d.get("start", ())), f(d.get("stop", ())), f(d.get("seq") or ())))
            for t in L.trans:
                out.append((f(tuple((a, b) for a, b in t[0])), tuple((k, f(v)) for k, v in sorted(t[1].items())), t[3], f(t[4] or ())))
            out.append(tuple((L.kid[k], f(i[0]) if i[0] is not None else None) for k, i in sorted(L.phis.items(), key=lambda x: L.kid[x[0]])))
        return hash(repr(out))

    # ------------------------------------------------------------ set-up
    def prepare(self):
        E, ctx = self.E, self.ctx
        self.loops = []
        for l in top_loops(self.outs):
            L = E.loops[l]
            accs = classify(E, L)
            if not abstract(E, L, accs):
                continue
            if not L.domain or L.extra:
                raise Unknown("iteration domain of the loop in line %d" % L.line)
            ctx.accs[l] = accs
            for a in accs:
                ctx.loop_of[id(a)] = l
            ctx.rename.update({k: v for k, v in L.rename.items() if k[0] == "phi"})
            for b in accs:
                if b.kind != "bool" or b.init[0] not in ("bool",):
                    continue
                for a in accs:
                    if a is b or a.kind not in ("expr", "seq"):
                        continue
                    keep = lambda t: t[1][a.kid] == a.phi or t[1][a.kid] == (("prev", l, a.kid),)
                    if all((t[1][b.kid][0] == "bool" and t[1][b.kid] != b.init) or (t[1][b.kid] in (b.phi, b.init) and keep(t)) for t in L.trans):
                        ctx.guarded.setdefault((l, a.kid), []).append(b)
            self.loops.append(l)
        # lists / values that are scalar by construction
        for l in self.loops:
            for a in ctx.accs[l]:
                if a.kind not in ("seq", "expr", "map"):
                    continue
                a.scalar = True
        changed = True
        self.lsig = {l: self.sig(("loop", l)) for l in self.loops}
        while changed:
            changed = False
            for l in self.loops:
                L = E.loops[l]
                for a in ctx.accs[l]:
                    if not a.scalar:
                        continue
                    k = ("sc", self.lsig[l], a.kid, tuple((self.lsig[p], b.kid, b.scalar) for p in self.loops if p <= l for b in ctx.accs[p]))
                    if k not in self.seen:
                        self.seen[k] = self.stays_scalar(l, L, a)
                    if not self.seen[k]:
                        a.scalar = False
                        changed = True
        self.abs = set(self.loops)

    def stays_scalar(self, l, L, a):
        def chk(w, v, st):
            if a.kind == "seq":
                ops = v[1:] if v and v[0] == ("prev", l, a.kid) else v
                return all(x.scalar() for x in w.seq_ops(tuple(ops)))
            if a.kind == "map":
                return all(w.val(x[2]).scalar() for x in v if x[0] in ("set", "put"))
            return w.val(v).scalar()
        pts = [(t[6], t[0], t[1][a.kid]) for t in L.trans if t[3] != "return"]
        pts.append((L.entry, L.entry.guards, a.init))
        for st, g, v in pts:
            n = 0
            for k in range(self.tries):
                w = self.world(st, k, g)
                try:
                    if w.consistent(self.resolved(g, st)) is None:
                        continue
                    if not chk(w, v, st):
                        return False
                except Skip:
                    continue
                except Unknown:
                    return False
                n += 1
                if n > 12:
                    break
        return True

    def world(self, st, n, guards, loop=None):
        w = CWorld.__new__(CWorld)
        w.ctx = self.ctx
        c = self.stcache.get(id(st))
        if c is None or c[0] is not st:
            sub = self.ctx.rename
            st2 = st.copy()
            st2.types = {EN.subst(k, sub): x for k, x in st.types.items()}
            st2.eqs = {EN.subst(k, sub): x for k, x in st.eqs.items()}
            self.stcache = {id(st): (st, st2)}
            c = (st, st2)
        st2 = c[1].copy()
        w.boolforce = {}
        sem.World.__init__(w, self.E, st2, n, guards)
        return w

    def plan(self, st, g):
        """list lengths and flags that satisfy the path's conditions on them"""
        flags, sizes, ops = {}, [], []
        for a, b in g:
            a = EN.subst(a, self.ctx.rename)
            if a[0] == "truth" and a[1][0] in ("loopval", "phi") and self.ctx.is_bool(a[1]):
                if flags.setdefault(a[1], b) != b:
                    return None
            if a[0] in ("eq", "lt") and any(x[0] == "size" and x[1][0] == "seqv" for x in a[1:]):
                sizes.append((a, b))
                for x in a[1:]:
                    if x[0] == "size" and x[1][0] == "seqv":
                        self.free_lists(x[1][1], ops)
        if not sizes or len(ops) > 6:
            return [({}, flags)]
        out = []
        w = self.world(st, 1, ())
        w.boolforce = flags
        for c in itertools.product(range(4 if len(ops) < 4 else 3), repeat=len(ops)):
            w.arity = {("n", o): k for o, k in zip(ops, c)}
            good = True
            for a, b in sizes:
                try:
                    v = [w.shape_num(x) if x[0] == "size" else x[1] if x[0] == "int" else None for x in a[1:]]
                except (Unknown, Skip):
                    continue
                if None in v:
                    continue
                if ((v[0] == v[1]) if a[0] == "eq" else (v[0] < v[1])) != b:
                    good = False
                    break
            if good:
                out.append((w.arity, flags))
        return out

    def free_lists(self, seqops, ops):
        for o in seqops:
            if o[0] == "copy" and o[1][0] == "seqv":
                self.free_lists(o[1][1], ops)
            if o[0] in ("prev", "map", "loopseq"):
                if o[1] in self.ctx.accs:
                    if o not in ops:
                        ops.append(o)
                elif o[0] == "map":
                    d = self.E.loops[o[1]].domain
                    if d and d["stop"][0] == "size" and d["stop"][1][0] == "seqv":
                        self.free_lists(d["stop"][1][1], ops)

    def resolved(self, guards, st):
        return [(self.E.resolve(a, st) if a[0] not in ("loop", "caught") else a, b) for a, b in guards]

    # ------------------------------------------------------------ measures
    def sign_term(self, l, key, stage, tr=None, st=None):
        """current value of a flag variable"""
        for a in self.ctx.accs[l]:
            if a.key == key:
                return {"out": ("loopval", l, a.kid), "prev": a.phi, "init": a.init}[stage] if stage != "new" else tr[1][a.kid]
        v = self.E.loops[l].entry.env.get(key[1])
        return v

    def flag(self, w, t):
        if t is None:
            raise Unknown("flag")
        if t[0] == "bool":
            return t[1]
        if t[0] == "not":
            return not self.flag(w, t[1])
        if t[0] in ("loopval", "phi"):
            return w.bools(t)
        g = w.guard0(("truth", t))
        if g is None:
            raise Unknown("flag")
        return g

    def part(self, w, l, a, stage, tr=None):
        """list of values accumulator a contributes"""
        if a.kind == "seq":
            k = ("prev", l, a.kid)
            if stage == "out":
                return w.seq_ops((self.outop(l, a),))
            if stage == "prev":
                return w.seq_ops((k,))
            return w.seq_ops(tr[1][a.kid] if stage == "new" else a.init)
        if a.kind == "expr":
            t = {"out": ("loopval", l, a.kid), "prev": a.phi, "init": a.init}[stage] if stage != "new" else tr[1][a.kid]
            return [w.val(t)]
        if a.kind == "map":
            if stage == "init":
                if a.init:
                    raise Unknown("map start")
                return []
            ops = {"out": (self.outop(l, a),), "prev": (("prev", l, a.kid),)}[stage] if stage != "new" else tr[1][a.kid]
            out = []
            for o in ops:
                if o[0] in ("prev", "map", "loopseq"):
                    out += [sem.mul2(v, k) for k, v in w.pairs(o)]
                elif o[0] in ("set", "put"):
                    key, new = o[1], o[2]
                    has = next((b for g, b in tr[0] if g[0] == "truth" and g[1][0] == "has" and w.canon(g[1][2]) == w.canon(key)), None)
                    kv = w.val(key)
                    if has is None:
                        raise Unknown("map key")
                    if has:
                        old = w.val(("at", ("seqv", (("prev", l, a.kid),)), key))
                        out.append(sem.neg(sem.mul2(old, kv)))
                    out.append(sem.mul2(w.val(new), kv))
                else:
                    raise Unknown("map op")
            return out
        raise Unknown(a.kind)

    def outop(self, l, a):
        return ("map", l, a.kid)

    def measured(self, l):
        return [a for a in self.ctx.accs[l] if a.kind in ("seq", "expr", "map")]

    def measure(self, w, l, stage, tr=None, layout=None):
        order, signs = layout or self.layout[l]
        xs = []
        for a in order:
            xs += self.part(w, l, a, stage, tr)
        s = False
        for key in signs:
            s ^= self.flag(w, self.sign_term(l, key, stage, tr))
        return xs, s

    def total(self, xs, s=False):
        v = self.mode["total"](xs)
        return sem.neg(v) if s else v

    def whole(self, w, prev, parts=None):
        """the node is worth what the last loop's accumulators are worth"""
        if prev is None and parts is None:
            return
        w.force[self.this] = sem.const(0)   # its shape is the shape of the parts
        xs, s = parts() if parts else self.measure(w, prev, "out")
        t = self.total(xs, s)
        w.memo.clear()
        w.force[self.this] = t
        return t

    # ------------------------------------------------------------ domain
    def domain_elems(self, w, l):
        """values the loop is going to visit, in order"""
        L = self.E.loops[l]
        d = L.domain
        if d["step"] != 1 or d["start"][0] != "int":
            raise Unknown("domain")
        stop = d["stop"]
        if d.get("seq") is not None:
            seq = d["seq"]
        elif stop[0] == "size":
            seq = stop[1]
        elif stop[0] == "nargs":
            seq = ("args", stop[1])
        else:
            raise Unknown("domain")
        if seq[0] == "seqv":
            ops = seq[1]
            pm = [a for a in self.ctx.accs[l] if a.kind == "dom"]
            if ops and ops[0][0] == "prev" and ops[0][1] == l:
                a = self.ctx.acc(l, ops[0][2])
                ops = tuple(a.init) + tuple(ops[1:])
            if len(ops) == 1 and w.key_seq(ops[0]) and self.ctx.acc(*ops[0][1:3]).kind == "map":
                vals = [sem.mul2(v, k) for k, v in w.pairs(ops[0])]
            else:
                vals = w.seq_ops(ops)
        else:
            vals = w.seq(seq)
        return vals[d["start"][1]:]

    def elem(self, w, l):
        L = self.E.loops[l]
        d = L.domain
        stop = d["stop"]
        ix = ("idx", l)
        if d.get("seq") is not None:
            seq = d["seq"]
        elif stop[0] == "size":
            seq = stop[1]
        elif stop[0] == "nargs":
            return w.val(("arg", stop[1], ix))
        else:
            raise Unknown("domain")
        t = ("at", seq, ix)
        if seq[0] == "seqv" and len(seq[1]) == 1 and w.key_seq(seq[1][0]):
            a = self.ctx.acc(*seq[1][0][1:3])
            if a.kind == "map":
                return sem.mul2(w.val(("fld", t, "second")), w.val(("fld", t, "first")))
        return w.val(t)

    # ------------------------------------------------------------ deciding equalities
    def decide(self, st, guards, lhs, rhs, prep=None, tries=None, cast=False):
        """lhs(w) == rhs(w) at every valuation that satisfies the guards"""
        g = self.resolved(guards, st)
        ok = 0
        why = "no valuation satisfies the path condition"
        plans = self.plan(st, g)
        if not plans:
            return ("vacuous", "contradictory lengths or flags")
        for n in range(tries or self.tries):
            w = self.world(st, n, g)
            ar, fl = plans[(n * 7919 + n // 6) % len(plans)]
            w.arity = dict(ar)
            w.boolforce = fl
            if n == 0 and w.infeasible():
                return ("vacuous", "")
            try:
                if prep:
                    prep(w)
                un = w.consistent(g)
                if un is None:
                    continue
                un = [x for x in un if x[0][0] != "loop"]
                s = lhs(w)
            except Skip:
                continue
            except Unknown as u:
                return ("undecided", str(u))
            try:
                r = rhs(w)
            except Skip as u:
                why = "undefined: " + str(u)
                continue
            except Unknown as u:
                return ("undecided", str(u))
            if cast and s.scalar() != r.scalar():
                z = V(np.zeros((s if r.scalar() else r).shape, dtype=complex))
                s, r = sem.addn([s, z]), sem.addn([r, z])
            if not sem.same(s, r):
                if un:
                    return ("undecided", "unresolved condition " + "; ".join(EN.showg(x) for x in un)[:160])
                return ("violation", "%s expected %s, got %s (valuation %d)" % (self.mode["name"], sem.fmt(s), sem.fmt(r), n))
            ok += 1
            if ok >= self.want:
                break
        if ok == 0:
            return ("vacuous", why)
        return ("ok", ok)

    def rest(self, w):
        n = random.Random(h("rest", w.n)).choice((0, 1, 2))
        return [w.val(("sym", "rest%d" % i)) for i in range(n)]

    def steps(self, l, layout):
        """every transition of loop l under a candidate layout"""
        L = self.E.loops[l]
        out = []
        for t in L.trans:
            if t[3] == "throw":
                continue
            if t[3] == "return":
                def tot(w, t=t):
                    xs, s = self.measure(w, l, "prev", None, layout)
                    return self.total(xs + [self.elem(w, l)] + self.rest(w), s)

                def prep(w, tot=tot):
                    w.force[self.this] = sem.const(0)
                    v = tot(w)
                    w.memo.clear()
                    w.force[self.this] = v
                r = self.decide(t[6], t[0], tot, lambda w, t=t: w.val(t[4]), prep)
                out.append((t, "exit", r))
                continue

            def lhs(w):
                xs, s = self.measure(w, l, "prev", None, layout)
                return self.total(xs + [self.elem(w, l)] + (self.rest(w) if self.needs_order(layout) else []), s)

            def rhs(w, t=t):
                xs, s = self.measure(w, l, "new", t, layout)
                return self.total(xs + (self.rest(w) if self.needs_order(layout) else []) + (self.rest(w) if t[3] == "break" else []), s)
            # a flag can remember the shape of what is dropped
            shape = self.mode is ADD and any(a.kind == "bool" and t[1][a.kid][0] == "bool" and t[1][a.kid] != a.init for a in self.ctx.accs[l])
            r = self.decide(t[6], t[0], lhs, rhs, cast=shape)
            out.append((t, "step", r))
        return out

    def needs_order(self, layout):
        return False

    def choose(self, l, prevk):
        """measure of loop l: order of the accumulators, sign flags"""
        accs = self.measured(l)
        flags = [a.key for a in self.ctx.accs[l] if a.kind == "bool"]
        for p in self.loops:
            if p == l or p not in prevk:
                continue
            for key in self.layout[p][1]:
                if key not in flags:
                    flags.append(key)
        best = None
        cands = []
        for r in range(len(flags) + 1):
            for signs in itertools.combinations(flags, r):
                for order in itertools.permutations(accs):
                    cands.append((order, signs))
        if self.mode is ADD:
            cands = [(tuple(accs), ())]
        for lay in cands:
            res = self.steps(l, lay)
            bad = [x for x in res if x[2][0] == "violation"]
            ent = self.entry(l, lay, prevk)
            nb = len(bad) + (2 if ent[0] == "violation" else 0)
            if best is None or nb < best[0]:
                best = (nb, lay, res, ent)
            if nb == 0:
                break
        return best

    def entry(self, l, lay, prevk):
        L = self.E.loops[l]
        st = L.entry
        prev = self.before(L.entry.trace)

        def lhs(w):
            if prev is None:
                return w.val(self.this)
            return w.force[self.this]

        def prep(w):
            self.whole(w, prev)

        def rhs(w):
            xs, s = self.measure(w, l, "init", None, lay)
            return self.total(xs + self.domain_elems(w, l), s)
        return self.decide(st, st.guards, lhs, rhs, prep)

    def before(self, trace):
        p = [x for x in trace if x in self.abs]
        return p[-1] if p else None

    # ------------------------------------------------------------ driver
    def run(self, left_behind):
        self.prepare()
        name = lambda l: "loop %d" % (self.loops.index(l) + 1)
        bad_loops = set()
        for l in self.loops:
            L = self.E.loops[l]
            k = ("steps", self.lsig[l])
            if k in self.seen:
                l0, lay0, res0, ent = self.seen[k]
                m = {a.kid: a for a in self.ctx.accs[l]}
                self.layout[l] = (tuple(m[a.kid] for a in lay0[0]), lay0[1])
                continue
            nb, lay, res, ent = self.choose(l, set(L.entry.trace))
            self.seen[k] = (l, lay, res, ent)
            self.layout[l] = lay
            for t, kind, r in res:
                case = name(l) + ": " + (" & ".join(EN.showg(g) for g in t[0] if g[1])[:160] or "default")
                self.res.append((case, r[0], r[1], t[5], kind))
            self.res.append((name(l) + " start", ent[0], ent[1], L.line, "entry"))
        for o in self.outs:
            lst = [x for x in o.st.trace if x in self.abs]
            if any(g[0][0] == "loop" and g[0][1] in self.abs for g in o.guards):
                continue
            if o.kind != "return":
                continue
            prev = lst[-1] if lst else None
            pos = " & ".join(EN.showg(g) for g in o.guards if g[1] and g[0][0] != "loop" and "m_simplified" not in EN.showg(g))[-170:]

            def prep(w, prev=prev):
                self.whole(w, prev)
            lhs = lambda w: w.val(self.this)

            def rhs(w, o=o):
                if o.value == self.this:
                    return left_behind(w, o.st)
                return w.val(o.value)
            args = o.st.heap.get(("args", self.this))
            k = ("res", self.sig(tuple(self.resolved(o.guards, o.st)), o.value, self.E.resolve(("seqv", tuple(args)), o.st) if args else ()))
            if k in self.seen:
                continue
            self.seen[k] = True
            r = self.decide(o.st, o.guards, lhs, rhs, prep)
            self.res.append(("after %s: %s" % (name(prev) if prev else "entry", pos), r[0], r[1], o.line, "result"))
            if o.value != self.this and o.st.heap.get(("args", self.this)) not in (None, (("copy", ("args", self.this)),), (("copy", ("simpargs", self.this)),)):
                r = self.decide(o.st, o.guards, lhs, lambda w, o=o: left_behind(w, o.st), prep)
                self.res.append(("after %s: %s [node left behind]" % (name(prev) if prev else "entry", pos), r[0], r[1], o.line, "left"))
        return self.res
