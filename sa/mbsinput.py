"""T01: what the user described is what the generators get. The input layer (MbsSystem.add*, transformation._transformModel) is
summarised function by function and evaluated on described mechanisms; the processing objects that result are compared with the
description: poses of all frames, mass matrix, potential, coordinates, start values, loads, sensors, loops, constraints, generator arguments."""
import os

import numpy as np

import pyeval
from jets import M, Ring, rot
from mbsrun import Shared
from mbschecks import ASSUME, close
from load import REPO
from pyeval import Machine, Obj, Unknown, Var
from pymodel import interp, mk
from report import Report

IN = "pymbs.input.mbs_system"
AX = dict(x=0, y=1, z=2)
GENS = dict(Explicit="Generator_Explicit", Recursive="Generator_Recursive", OrderN="Generator_OrderN")


def o_thegraph(self, t, env):
    return self.machine.hooks["graph"]


def o_generator(self, t, env):
    name, line, args, kw = t.args
    o = Obj(None, name=name)
    o.a["state"] = Obj(None, name="state")
    o.__dict__["given"] = ([self.lazy(a, env) for a in args], {k: self.lazy(a, env) for k, a in kw})
    self.machine.hooks["generators"].append(o)
    return o


pyeval.Evaluator.o_thegraph = o_thegraph
pyeval.Evaluator.o_generator = o_generator


class Input(Shared):
    def mk(self, P):
        def gen(name):
            def f(I, args, kw, st, node):
                t = mk("generator", name, node.lineno, tuple(I.freeze(a, st) for a in args), tuple(sorted((k, I.freeze(v, st)) for k, v in kw.items())))
                I.event("variable", node, dict(value=t), st)
                return t
            return f
        models = {"pymbs.processing.%s.%s" % (n.lower(), n): gen(n) for n in GENS.values()}
        models["pymbs.processing.generator_order_n.Generator_OrderN"] = gen("Generator_OrderN")
        models.update({"pymbs.symbolics.graph.Graph": lambda I, a, k, st, n: mk("thegraph"), IN + ".MbsSystem._checkName": lambda I, a, k, st, n: None})
        I = interp(self.root, models=models)
        I.P = P
        return I


class Model:
    """a described mechanism beside the input objects that were made from the description"""

    def __init__(self, sh, rng, gravity=(0, 0, -1)):
        self.sh, self.rng = sh, rng
        self.R = Ring(["q"], 1)
        self.sym = {}
        self.graph = Obj(None, name="graph")
        self.m = Machine(sh.P, sh.mk, self.R, {"newvar": self.newvar, "method:getVariable": lambda E, a: Var(None, name="t"), "method:buildGraph": lambda E, a: True, "method:getSystemEqns": lambda E, a: None, "der": lambda v: ("der", v), "graph": self.graph, "generators": []}, cache=sh.cache)
        self.poses, self.mass, self.joints, self.end = {}, {}, [], {}
        self.S = self.m.construct(sh.P.get(IN, "MbsSystem"), list(gravity))
        self.gravity = np.array(gravity, float)
        self.poses[self.S] = (None, np.zeros(3), np.eye(3))
        self.n = 0
        self.values = {}
        self.poses[self.cs0(self.S)] = (self.S, np.zeros(3), np.eye(3))

    def newvar(self, v):
        n = v.name
        if isinstance(n, str) and (n.split("_")[0] in ("q", "qd", "qdd") and "_" in n or n in ("g", "time")):
            if n not in self.sym:
                self.sym[n] = M(self.R, self.R.mat(self.rng.uniform(0.3, 1.2)).a, None, "expr")
            return self.sym[n]
        if n in self.__dict__.get("values", ()):
            if n not in self.sym:
                v = self.R.mat(self.rng.uniform(0.3, 1.2, self.values[n]))
                self.sym[n] = M(self.R, v.a, None, "expr")
            return self.sym[n]
        return v

    def mat(self, x):
        r = self.R.mat(np.array(x, float))
        r.kind = "matrix"
        return r

    def call(self, o, name, /, *a, **k):
        return self.m.method(o, name, *a, **k)

    def fn(self, name, mod="pymbs.input.transformation"):
        return self.sh.I0.value_of(self.sh.P.lookup(mod, name), None, mod, name)

    # -------------------------------------------------------- description
    def body(self, mass=None, name=None):
        rng = self.rng
        A = rng.uniform(-1, 1, (3, 3))
        m, cg, I = rng.uniform(0.5, 2) if mass is None else mass, rng.uniform(-1, 1, 3), A @ A.T + np.eye(3)
        if mass == 0:
            cg, I = np.zeros(3), np.zeros((3, 3))
        self.n += 1
        b = self.call(self.S, "addBody", m, list(map(float, cg)), self.mat(I), name or "b%d" % self.n)
        self.mass[b] = (m, cg, I)
        self.poses[b] = (None, np.zeros(3), np.eye(3))
        self.poses[self.cs0(b)] = (b, np.zeros(3), np.eye(3))
        return b

    def cs0(self, b):
        return self.m.method(b, "__getattr__", "_CS_0") if "_CS_0" not in b.a else b.a["_CS_0"]

    def frame(self, parent, turn=True, p=None, name=None):
        rng = self.rng
        p = rng.uniform(-1, 1, 3) if p is None else np.array(p, float)
        R = rot_of(rng) if turn else np.eye(3)
        self.n += 1
        args = [self.mat(p)] + ([M(self.R, self.R.const(R), None, "matrix")] if turn else [])
        f = self.call(parent, "addFrame", name or "f%d" % self.n, *args)
        self.poses[f] = (parent, p, R)
        return f

    def joint(self, a, b, dofs, q0=None, qd0=None, name=None):
        self.n += 1
        name = name or "j%d" % self.n
        k = {}
        if q0 is not None:
            k["startVals"] = q0
        if qd0 is not None:
            k["startVals_d"] = qd0
        r = self.call(self.S, "addJoint", a, b, list(dofs) if isinstance(dofs, (list, tuple)) else dofs, name=name, **k)
        l = [dofs] if isinstance(dofs, str) else list(dofs or ())
        rs = list(r) if isinstance(r, (list, tuple)) else [r]
        n = max(len(l), 1)
        if len(rs) != n:
            raise Wrong("addJoint gives one joint for every degree of freedom", "%d joints for %s" % (len(rs), l), "addJoint")
        self.joints.append((a, b, l, rs, vals(q0, n), vals(qd0, n)))
        return r

    # -------------------------------------------------------- what is described
    def rel(self, f):
        """pose of a frame in its body"""
        p, R = np.zeros(3), np.eye(3)
        while True:
            q, fp, fR = self.poses[f]
            p, R = fp + fR @ p, fR @ R
            if q is None:
                return f, p, R
            f = q

    def described(self, q):
        """world poses of the bodies, geometric Jacobians"""
        X = {self.S: (np.zeros(3), np.eye(3), [])}
        todo = list(self.joints)
        while todo:
            rest = []
            for j in todo:
                a, b, l, rs, q0, qd0 = j
                A, pa, Ra = self.rel(a)
                B, pb, Rb = self.rel(b)
                if A not in X:
                    rest.append(j)
                    continue
                p, R, chain = X[A]
                p, R, chain = p + R @ pa, R @ Ra, list(chain)
                for d, jo in zip(l, rs):
                    ax = np.eye(3)[AX[d[1]]]
                    chain.append((jo, d[0], p, R @ ax))
                    if d[0] == "T":
                        p = p + R @ ax * q[jo]
                    else:
                        R = R @ rotm(ax, q[jo])
                R = R @ Rb.T
                X[B] = (p - R @ pb, R, chain)
            if len(rest) == len(todo):
                break
            todo = rest
        return X

    # -------------------------------------------------------- what resulted
    def transform(self, gen=None):
        m = self.m
        m.call(self.fn("setMbsSystemType"), None, [self.S.cls], {})
        if gen:
            self.call(self.S.a["genEquations"], gen[0], *gen[1], **gen[2])
            return
        m.call(self.fn("_transformModel"), None, [self.S], {})

    def glob(self, n):
        v = self.m.module("pymbs.input.transformation").a.get(n)
        if isinstance(v, Unknown):
            raise v
        return v

    def m_seq(self, v):
        if isinstance(v, Unknown):
            raise v
        return list(v) if isinstance(v, (list, tuple)) else self.m_list(v)

    def m_list(self, v):
        raise Unknown("list %r" % (v,))

    def ref(self, x):
        r = x.a.get("referenceToNew")
        if not isinstance(r, Obj):
            raise Wrong("every described element has a counterpart", "%r has none" % x, "_transformModel")
        return r


def vals(v, n):
    if v is None:
        return [0] * n
    return list(v) if isinstance(v, (list, tuple)) else [v]


class Wrong(Exception):
    def __init__(self, what, got, fn="_transformModel"):
        self.what, self.got, self.fn = what, got, fn


def rotm(ax, a):
    c, s = np.cos(a), np.sin(a)
    x, y, z = ax
    S = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + s * S + (1 - c) * S @ S


def rot_of(rng):
    ax = rng.uniform(-1, 1, 3)
    return rotm(ax / np.linalg.norm(ax), rng.uniform(0.3, 2.5))


def num(x):
    if isinstance(x, M):
        v = x.value()
        return v[:, 0] if v.ndim == 2 and v.shape[1] == 1 and v.shape[0] > 1 else v
    if isinstance(x, (list, tuple)):
        return np.array([float(np.ravel(num(y))[0]) for y in x])
    if isinstance(x, (int, float)):
        return float(x)
    raise Unknown("number %r" % (x,))


def scal(x):
    return float(np.ravel(num(x))[0])


def energy(bodies, order):
    """mass matrix and moment of the masses of (mass, world centre, world inertia, chain)"""
    n = len(order)
    H, pot = np.zeros((n, n)), np.zeros(3)
    ix = {j: i for i, j in enumerate(order)}
    for m, c, I, chain in bodies:
        Jv, Jw = np.zeros((3, n)), np.zeros((3, n))
        for j, t, o, ax in chain:
            if j not in ix:
                raise Wrong("every coordinate belongs to a described joint", "%r" % (j,))
            Jv[:, ix[j]] += ax if t == "T" else np.cross(ax, c - o)
            Jw[:, ix[j]] += 0 if t == "T" else ax
        H += m * Jv.T @ Jv + Jw.T @ I @ Jw
        pot += m * c if chain else 0
    return H, pot


# ---------------------------------------------------------------- obligations
TR = "pymbs.input.transformation."


class T01:
    def __init__(self, prop, tier):
        self.R = Report(prop, tier, "description against processing objects")
        self.tier = tier
        self.quick = tier == "quick"
        self.sh = Input(REPO)
        self.rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1") or 1) + 100)
        self.funcs = set()

    def scenario(self, name, build, checks, gen=None, **world):
        """build(model) describes, checks(model, described things) compares"""
        try:
            w = Model(self.sh, np.random.default_rng(int(self.rng.integers(1 << 30))), **world)
            x = build(w)
            w.transform(gen)
        except Wrong as e:
            self.R.bad("elements", e.fn, "%s: %s" % (e.what, name), e.got, *self.place(e.fn))
            return
        except Unknown as e:
            if "w" in dir() and w.m.raised:
                return self.raised(w, name)
            self.R.undecided("scenario", TR + "_transformModel", name, str(e)[:200])
            return
        self.funcs |= w.m.used
        if w.m.raised:
            return self.raised(w, name)
        if w.m.unknown:
            what, why = w.m.unknown[0]
            if getattr(why, "missing", False):
                self.R.bad("scenario", TR + "_transformModel", "what is read has been stored: " + name, "%s does not exist when %s is derived" % (why, what), *self.place("_transformModel"))
            else:
                self.R.undecided("terms", TR + "_transformModel", name, "%d terms not evaluated, first: %s" % (len(w.m.unknown), str(w.m.unknown[0])[:200]))
        self.R.anchor("scenarios", 1)
        self.sure = not w.m.unknown
        for c in checks:
            try:
                c(w, name, x)
            except Wrong as e:
                self.ob(False, "elements", e.fn, "%s: %s" % (e.what, name), e.got)
            except Unknown as e:
                self.R.undecided("scenario", TR + "_transformModel", name, str(e)[:200])

    def raised(self, w, name):
        f, l = w.m.raised[0]
        self.R.bad("scenario", TR + "_transformModel", "the model is accepted: " + name, "an exception is raised", os.path.join(REPO, f) if not os.path.isabs(f) else f, l)

    def place(self, fn):
        for mod in ("pymbs.input.transformation", IN):
            f = self.sh.P.lookup(mod, fn)
            if f is not None and getattr(f, "node", None) is not None:
                return os.path.join(REPO, mod.replace(".", "/") + ".py"), f.node.lineno
        return os.path.join(REPO, "pymbs/input/transformation.py"), 1

    def ob(self, good, rule, fn, what, got, line=None):
        if good:
            self.R.ok(rule, TR + fn, what)
        elif not self.sure:
            self.R.undecided(rule, TR + fn, what, "differs, but not everything could be evaluated: %s" % got)
        else:
            f, l = self.place(fn)
            self.R.bad(rule, TR + fn, what, got, f, l)

    # ------------------------------------------------------------ geometry
    def world(self, w):
        """poses of the processing bodies, found the way the generators find them"""
        pw = w.glob("_pInertialBody")
        if not isinstance(pw, Obj):
            raise Unknown("inertial body")
        X = {pw: (np.zeros(3), np.eye(3), [])}
        todo, back = [pw], {}
        while todo:
            b = todo.pop()
            p, R, chain = X[b]
            for f in w.m_seq(b.a["children"]):
                for j in w.m_seq(f.a["joints"]):
                    c = j.a["body"]
                    if c in X:
                        raise Wrong("bodies and joints form a tree", "body %r is reached twice" % c)
                    fp, fR = num(f.a["p"]), num(f.a["R"])
                    q = scal(j.a["q"])
                    o, Ro = p + R @ fp, R @ fR
                    Psi, Phi = num(j.a["Psi"]), num(j.a["Phi"])
                    kind = "T" if np.abs(Psi).max() > 0 else "R"
                    X[c] = (o + Ro @ Psi * q, Ro @ num(j.a["R"]), chain + [(j, kind, o, Ro @ (Psi if kind == "T" else Phi))])
                    todo.append(c)
        return X

    def geometry(self, w, name, x):
        js = [jo for j in w.joints if j[2] for jo in j[3]]
        pj = [w.ref(j) for j in js]
        qs = [scal(j.a["q"]) for j in pj]
        if len(set(qs)) != len(qs):
            raise Wrong("every degree of freedom has a coordinate of its own", "coordinates are shared")
        D = w.described(dict(zip(js, qs)))
        X = self.world(w)
        for f in w.poses:
            b, p, R = w.rel(f)
            if b not in D or f is b:
                continue
            bp, bR, _ = D[b]
            if not isinstance(f.a.get("referenceToNew"), Obj):
                raise Wrong("every described frame has a counterpart", "%r has none" % f)
            g = w.ref(f)
            pb = g.a.get("parentBody")
            if pb is None or pb not in X:
                raise Wrong("the frames belong to bodies the generators reach", "%r" % f)
            if g not in w.m_seq(pb.a["children"]):
                raise Wrong("the frames belong to their bodies", "%r" % f)
            gp, gR = X[pb][0] + X[pb][1] @ num(g.a["p"]), X[pb][1] @ num(g.a["R"])
            self.ob(close(gp, bp + bR @ p), "pose", "_transformModel", "position of frame %s: %s" % (f, name), "%s instead of %s" % (r3(gp), r3(bp + bR @ p)))
            self.ob(close(gR, bR @ R), "pose", "_transformModel", "orientation of frame %s: %s" % (f, name), "%s instead of %s" % (r3(gR), r3(bR @ R)))
        for b in w.mass:
            if b in D and "mass" in b.a:
                pass
        have = [(scal(b.a["mass"]), X[b][0] + X[b][1] @ num(b.a["cg"]), X[b][1] @ num(b.a["inertia"]) @ X[b][1].T, X[b][2]) for b in X if X[b][2]]
        ref = {jo: pjo for jo, pjo in zip(js, pj)}
        want = [(m, D[b][0] + D[b][1] @ cg, D[b][1] @ I @ D[b][1].T, [(ref[jo], t, o, ax) for jo, t, o, ax in D[b][2]]) for b, (m, cg, I) in w.mass.items() if b in D]
        H1, P1 = energy(have, pj)
        H2, P2 = energy(want, pj)
        self.ob(close(H1, H2), "mass", "_transformModel", "mass matrix of the mechanism: %s" % name, "%s instead of %s" % (r3(H1), r3(H2)))
        self.ob(close(P1, P2), "mass", "_transformModel", "moment of the masses: %s" % name, "%s instead of %s" % (r3(P1), r3(P2)))
        for a, b, l, rs, q0, qd0 in w.joints:
            for i, (d, jo) in enumerate(zip(l, rs)):
                p = w.ref(jo)
                for k, v in (("q0", q0[i]), ("qd0", qd0[i])):
                    self.ob(close(np.array(scal(p.a[k])), np.array(float(v))), "start values", "_transformModel", "%s of joint %s: %s" % (k, jo, name), "%s instead of %s" % (p.a[k], v))
        g = w.glob("_gravity")
        gv = w.gravity * scal(w.sym["g"])
        self.ob(close(num(g), gv), "gravity", "_transformModel", "gravity: %s" % name, "%s instead of %s" % (r3(num(g)), r3(gv)))


def r3(x):
    return np.array2string(np.asarray(x), precision=3, separator=",").replace("\n", "")


# ---------------------------------------------------------------- mechanisms
def chain(dofs, depth=2, weld=(), world_first=True):
    def build(w):
        prev = w.S
        for k, d in enumerate(dofs):
            b = w.body()
            a = prev
            for _ in range((k + depth) % 3):
                a = w.frame(a, turn=True)
            c = b
            for _ in range((k + 1) % 3):
                c = w.frame(c)
            n = len(d) if isinstance(d, (list, tuple)) else 1
            v = [float(x) for x in w.rng.uniform(-1, 1, n)]
            u = [float(x) for x in w.rng.uniform(-1, 1, n)]
            w.joint(a if a is not w.S else w.cs0(w.S), c if c is not b else w.cs0(b), d, v if n > 1 else v[0], u if n > 1 else u[0])
            w.frame(w.frame(b))
            prev = b
    return build


def multi(w):
    """joints with several degrees of freedom, bodies instead of frames, a branch, default start values"""
    a, b, c, d = w.body(), w.body(), w.body(), w.body()
    w.joint(w.S, a, ["Tx", "Ty", "Rz"], [0.1, 0.2, 0.3], [1.0, 2.0, 3.0])
    w.joint(w.frame(a), w.frame(b), ["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"])
    w.joint(w.frame(w.frame(a)), c, ["Ry", "Rx"], [0.4, 0.5])
    w.joint(w.frame(c), w.frame(w.frame(d)), "Tz", 0.25, 0.75)
    w.frame(d)


def order(w):
    """bodies and joints described in an order that is not the order of the chain"""
    a, b, c = w.body(), w.body(), w.body()
    fs = [w.frame(x) for x in (a, b, c, w.S)]
    gs = [w.frame(x) for x in (a, b, c)]
    w.joint(fs[1], gs[0], "Rx", 0.1)
    w.joint(fs[2], gs[1], ["Tz", "Ry"])
    w.joint(fs[3], gs[2], "Rz", 0.2)


def plain(w):
    """frames without rotation; joints in the origins"""
    a, b = w.body(), w.body()
    w.joint(w.S, a, "Ry", 1)
    w.joint(w.frame(a, turn=False), w.frame(b, turn=False), "Tx", 2, 3)
    w.frame(b, turn=False)


def gravity(v):
    def build(w):
        a = w.body()
        w.joint(w.S, w.frame(a), "Ry")
        w.frame(a)
    return build


def weld(kind):
    def build(w):
        a, b, c, d = w.body(), w.body(), w.body(), w.body()
        if kind == "chain":
            w.joint(w.S, w.frame(a), "Rx")
            w.joint(w.frame(a), w.frame(b), None)
            w.joint(w.frame(w.frame(b)), w.frame(c), None)
            w.joint(w.frame(c), w.frame(d), "Ry")
        elif kind == "chain backwards":
            fa, fb, fc, fd = w.frame(a), w.frame(b), w.frame(c), w.frame(d)
            w.joint(w.frame(b), fc, None)
            w.joint(w.frame(c), fd, "Rz")
            w.joint(w.frame(a), fb, None)
            w.joint(w.frame(w.S), fa, ["Rx", "Tz"])
        elif kind == "world":
            w.joint(w.frame(w.S), w.frame(a), None)
            w.joint(w.frame(a), w.frame(b), "Rx")
            w.joint(w.frame(b), w.frame(c), None)
            w.joint(w.frame(c), w.frame(d), "Tz")
        elif kind == "two":
            w.joint(w.frame(w.S), w.frame(a), ["Rx", "Ry"])
            w.joint(w.frame(a), w.frame(b), [])
            w.joint(a, w.frame(c), None)
            w.joint(a, d, None)
            w.frame(w.frame(d))
        elif kind == "moved":
            # the joint ends on a body that carries the other
            w.joint(w.frame(a), w.frame(b), None)
            w.joint(w.frame(w.S), w.frame(a), "Rz", 0.5)
            w.joint(w.frame(b), c, None)
            w.joint(w.frame(w.frame(c)), w.frame(d), "Tx", 0.1, 0.2)
    return build


# ---------------------------------------------------------------- elements
def same(a, b):
    if isinstance(a, (Obj,)) or isinstance(b, (Obj,)):
        return a is b
    if isinstance(a, M) or isinstance(b, M):
        try:
            return close(np.atleast_1d(num(a)), np.atleast_1d(num(b)))
        except (Unknown, AttributeError):
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def base(w, n=3):
    """a few moving bodies with frames"""
    bs = [w.body() for _ in range(n)]
    js = []
    prev = w.S
    for k, b in enumerate(bs):
        js.append(w.joint(w.frame(prev), w.frame(b), ["Rx", "Tz", "Ry"][k % 3]))
        prev = b
    fs = [w.frame(w.frame(b)) for b in bs] + [w.frame(w.S)]
    return bs, js, fs


def twins(T, fn, mod, w, name, made, wanted):
    """objects the conversion made against objects the classes make of the mapped arguments"""
    if isinstance(made, Unknown):
        raise made
    made = w.m_seq(made)
    if any(not isinstance(x, Obj) for x in made):
        raise Unknown("elements")
    for cls, nm, args, kw in wanted:
        what = "%s %s: %s" % (cls, nm, name)
        have = [x for x in made if x.a.get("name") == nm]
        if len(have) != 1:
            T.ob(False, "elements", fn, "every described element is converted once: " + what, "%d elements of this name" % len(have))
            continue
        x = have[0]
        c = T.sh.P.lookup("pymbs.processing.loops." + mod[cls] if isinstance(mod, dict) else mod.rstrip("."), cls)
        if x.cls is not c:
            T.ob(False, "elements", fn, "kind of " + what, "%s" % (x.cls,))
            continue
        y = w.m.construct(c, *[a() if callable(a) else a for a in args], **kw)
        diff = [k for k in y.a if not same(x.a.get(k), y.a[k])]
        T.ob(not diff, "elements", fn, "arguments of " + what, ", ".join("%s is %s instead of %s" % (k, x.a.get(k), y.a[k]) for k in diff))
    T.ob(len(made) == len(wanted), "elements", fn, "no element is invented: " + name, "%d elements for %d described" % (len(made), len(wanted)))


def loads(w):
    bs, js, fs = base(w)
    S = w.S.a["addLoad"]
    u = [w.call(w.S, "addInput", n, s) for n, s in (("u0", (3,)), ("u1", ()), ("u2", (3,)), ("u3", ()), ("u4", (3,)))]
    out = []
    w.call(S, "CmpForce", u[0], fs[0], fs[1], fs[2], "cf")
    out.append(("CmpForce", "cf", fs[0], fs[1], u[0], fs[2]))
    w.call(S, "PtPForce", u[1], fs[2], fs[1], "pf")
    out.append(("PtPForce", "pf", fs[2], fs[1], u[1], None))
    w.call(S, "CmpTorque", u[2], fs[1], fs[0], None, "ct")
    out.append(("CmpTorque", "ct", fs[1], fs[0], u[2], None))
    w.call(S, "Joint", u[3], js[1], "jl")
    out.append(("JointLoad", "jl", js[1], u[3]))
    w.call(S, "CmpForce", u[4], bs[2], w.S, bs[0], name="cb")
    out.append(("CmpForce", "cb", w.cs0(bs[2]), w.cs0(w.S), u[4], w.cs0(bs[0])))
    return out


def check_loads(T):
    def f(w, name, x):
        want = []
        for l in x:
            r = lambda o: w.ref(o) if o is not None else None
            if l[0] == "JointLoad":
                want.append((l[0], l[1], [l[1], r(l[2]), l[3]], {}))
            else:
                want.append((l[0], l[1], [l[1], r(l[2]), r(l[3]), l[4], r(l[5])], {}))
        twins(T, "convertLoads", "pymbs.processing.loads.", w, name, w.glob("_loads"), want)
    return f


def sensors(w):
    bs, js, fs = base(w)
    S = w.S.a["addSensor"]
    out = []
    w.values.update(syJoint=(2, 1), syConstraintForce=(3, 1), syConstraintTorque=(3, 1))
    kinds = [("Distance", "DistanceSensor", (2,), 0), ("Position", "PositionSensor", (3,), 1), ("Velocity", "VelocitySensor", (3,), 1), ("Acceleration", "AccelerationSensor", (3,), 1),
             ("Orientation", "OrientationSensor", (3, 3), 0), ("AngularVelocity", "AngVelocitySensor", (3,), 1), ("AngularAcceleration", "AngAccelerationSensor", (3,), 1)]
    for n, (meth, cls, shape, ref) in enumerate(kinds):
        a, b, c = fs[n % 4], fs[(n + 1 + n % 2) % 4], fs[(n + 2) % 4]
        kw = dict(category=4 * n + 512) if n % 2 else {}
        kind = 4 * n + 512 if n % 2 else w.m.module("pymbs.symbolics.graph") and 256
        s = w.call(S, meth, "s%d" % n, a, b, *([c] if ref and n != 2 else [None] if ref else []), name="S%d" % n, **kw)
        out.append((cls, "S%d" % n, [a, b, s, c if ref and n != 2 else None, kind], "s%d" % n, shape, kind, s))
        s = w.call(S, meth, "sb%d" % n, bs[n % 3], w.S, name="SB%d" % n)
        out.append((cls, "SB%d" % n, [w.cs0(bs[n % 3]), w.cs0(w.S), s, None, 256], "sb%d" % n, shape, 256, s))
    for meth, cls, shape, j in (("Joint", "JointSensor", (2,), 1), ("ConstraintForce", "ConstraintForceSensor", (3,), 0), ("ConstraintTorque", "ConstraintTorqueSensor", (3,), 2)):
        w.call(S, meth, "sy" + meth, js[j], name="SN" + meth)
        out.append((cls, "SN" + meth, [js[j], "sy" + meth], "sy" + meth, shape, 256, None))
    s = w.call(S, "Energy", "syE", bs[1], name="SNE")
    out.append(("EnergySensor", "SNE", [bs[1], "syE", "gravity"], "syE", (), 256, s))
    return out


def declared(T, w, name, fn, sym, shape, kind, result):
    d = [x for x in w.m.declared if x[1] == sym]
    if any(isinstance(y, Unknown) for x in d for y in x):
        raise Unknown("declaration of %s" % sym)
    T.ob(len(d) == 1 and tuple(d[0][2] or ()) == shape and d[0][3] == kind, "variables", fn, "declaration of %s: %s" % (sym, name), "%s" % [x[1:] for x in d])
    if result is not None and len(d) == 1:
        T.ob(d[0][0] is result, "variables", fn, "the call gives the symbol of the new element: %s: %s" % (sym, name), "%r" % (result,))
    return d[0][0] if d else None


def check_sensors(T):
    def f(w, name, x):
        want = []
        for cls, nm, args, sym, shape, kind, result in x:
            v = declared(T, w, name, "_addSensor", sym, shape, kind, result)
            new = [w.ref(a) if isinstance(a, Obj) and "referenceToNew" in a.a else v if a == sym else w.glob("_gravity") if a == "gravity" else a for a in args]
            want.append((cls, nm, [nm] + new, {}))
        twins(T, "convertSensors", "pymbs.processing.sensors.", w, name, w.glob("_sensors"), want)
    return f


def planar(w, kind):
    """mechanism the class of the loop accepts, and the frames it is closed with"""
    r = lambda: float(w.rng.uniform(0.2, 1))
    A = w.frame(w.S, turn=False, p=[0, 0, 0])
    D = w.frame(w.S, turn=False, p=[r(), r(), 0])
    bs = [w.body() for _ in range(3)]
    at = lambda b: w.frame(b, turn=False, p=[r(), r(), 0])
    if kind == "FourBar":
        w.joint(A, bs[0], "Rz")
        w.joint(at(bs[0]), bs[1], "Rz")
        w.joint(D, bs[2], "Rz")
        return at(bs[1]), at(bs[2])
    if kind == "ThreeBarTrans":
        w.joint(A, bs[0], "Rz")
        w.joint(D, bs[1], "Rz")
        w.joint(bs[1], bs[2], "Tx")
        return w.frame(bs[0], turn=False, p=[r(), r(), 0]), w.frame(bs[2], turn=False, p=[0, 0, 0])
    if kind == "CrankSlider":
        w.joint(A, bs[0], "Rz")
        w.joint(w.S, bs[1], "Tx")
        w.joint(bs[1], bs[2], "Rz")
        return w.frame(bs[0], turn=False, p=[r(), 0, 0]), w.frame(bs[2], turn=False, p=[r(), 0, 0])
    if kind == "FourBarTrans":
        w.joint(A, bs[0], "Rz")
        w.joint(at(bs[0]), bs[1], "Rz")
        w.joint(D, bs[2], "Rz")
        e = w.body()
        w.joint(bs[2], e, "Tx")
        return at(bs[1]), w.frame(e, turn=False, p=[0, 0, 0])
    if kind == "Steering":
        w.joint(A, bs[0], "Ty")
        w.joint(at(bs[0]), bs[1], "Rz")
        w.joint(at(bs[1]), bs[2], "Rz")
        return w.frame(w.S, turn=False, p=[r(), r(), 0]), at(bs[2])


def loops(kind, args, swap=False):
    def build(w):
        a, b = planar(w, kind)
        if swap:
            a, b = b, a
        w.call(w.S.a["addLoop"], kind, a, b, *args, name="L")
        return [(kind, "L", [a, b] + (list(args) or dict(FourBar=[1], Steering=[1, 1]).get(kind, [])))]
    return build


def joints(w):
    bs, js, fs = base(w, 4)
    L = w.S.a["addLoop"]
    w.call(L, "Transmission", js[0], js[2], 2.5, name="LT")
    w.call(L, "Transmission", js[1], js[3], name="LU")
    return [("Transmission", "LT", [js[0], js[2], 2.5]), ("Transmission", "LU", [js[1], js[3], 1.0])]


def check_loops(T):
    def f(w, name, x):
        want = [(cls, nm, [nm] + [w.ref(a) if isinstance(a, Obj) else a for a in args], {}) for cls, nm, args in x]
        twins(T, "convertloops", LOOPMOD, w, name, w.glob("_loops"), want)
    return f


LOOPMOD = dict(FourBar="fourbar", ThreeBarTrans="threebar_trans", Steering="steering", CrankSlider="crank_slider", Hexapod="hexapod", FourBarTrans="fourbar_trans", Transmission="transmission", ExpJoint="exp_joint")


def constraints(w):
    bs, js, fs = base(w)
    out = []
    for n, (a, b, t, r) in enumerate(((fs[0], fs[2], [1, 0, 1], [0, 1, 0]), (fs[1], fs[3], [0, 1, 1], None), (fs[2], fs[1], None, [1, 1, 0]), (bs[2], w.S, [1, 1, 1], [0, 0, 1]))):
        k = {}
        if t is not None:
            k["transLock"] = t
        if r is not None:
            k["rotLock"] = r
        w.call(w.S, "addConstraint", a, b, name="C%d" % n, **k)
        out.append((a if "parent" in a.a and n != 3 else w.cs0(a), b if n != 3 else w.cs0(b), t or [0, 0, 0], r or [0, 0, 0], "C%d" % n))
    return out


def check_constraints(T):
    def f(w, name, x):
        for a, b, t, r, nm in x:
            pa, pb = w.ref(a), w.ref(b)
            have = {id(c): c for p in (pa, pb) for k, l in p.a.items() if isinstance(l, (list, tuple)) for c in l if isinstance(c, Obj) and c.a.get("name") == nm}
            if len(have) != 1:
                T.ob(False, "elements", "convertConstraints", "constraint %s is known to the frames it connects: %s" % (nm, name), "%d constraints of this name" % len(have))
                continue
            c = list(have.values())[0]
            y = w.m.construct(T.sh.P.lookup("pymbs.processing.loads.constraint", "Constraint"), nm, pa, pb, w.mat(t), w.mat(r))
            diff = [k for k in y.a if not same(c.a.get(k), y.a[k])]
            T.ob(not diff, "elements", "convertConstraints", "arguments of constraint %s: %s" % (nm, name), ", ".join("%s is %s instead of %s" % (k, c.a.get(k), y.a[k]) for k in diff))
    return f


def parameters(w):
    """scalar, vector, symmetric and general matrix parameters"""
    out = []
    r = lambda n: [float(x) for x in w.rng.uniform(0.1, 1, n)]
    sx = ("x", "y", "z")
    s6 = ("xx", "xy", "yy", "xz", "yz", "zz")
    for n, x in enumerate([""] + [a for a in sx] + list(s6) + [a + b for a in sx for b in sx]):
        w.values["p" + ("_" + x if x else "")] = ()
    for nm, suf in (("p", [""]), ("pv", sx), ("ps", s6), ("pm", [a + b for a in sx for b in sx]), ("pc", sx), ("pq", ["__%d_%d" % (a, b) for a in range(2) for b in range(2)])):
        for x in suf:
            w.values[nm + ("_" + x if x else "")] = ()
    d = r(1)[0]
    out.append((w.call(w.S, "addParam", "p", d), np.array("p"), np.array(d)))
    d = r(3)
    out.append((w.call(w.S, "addParam", "pv", d), np.array(["pv_" + a for a in sx]), np.array(d)))
    d = r(6)
    at = lambda a, b: s6.index(a + b if a + b in s6 else b + a)
    out.append((w.call(w.S, "addParam", "ps", d), np.array([["ps_" + s6[at(a, b)] for b in sx] for a in sx]), np.array([[d[at(a, b)] for b in sx] for a in sx])))
    d = np.array(r(9)).reshape(3, 3)
    out.append((w.call(w.S, "addParam", "pm", w.mat(d)), np.array([["pm_" + a + b for b in sx] for a in sx]), d))
    d = np.array(r(3))
    out.append((w.call(w.S, "addParam", "pc", w.mat(d)), np.array(["pc_" + a for a in sx]), d))
    d = np.array(r(4)).reshape(2, 2)
    out.append((w.call(w.S, "addParam", "pq", w.mat(d)), np.array([["pq___%d_%d" % (a, b) for b in range(2)] for a in range(2)]), d))
    w.joint(w.S, w.body(), "Rx")
    return out


def check_parameters(T):
    def f(w, name, x):
        for res, names, dflt in x:
            what = "parameter %s" % names.ravel()[0]
            want = np.array([scal(w.sym[str(n)]) if str(n) in w.sym else np.nan for n in names.ravel()]).reshape(names.shape)
            T.ob(close(np.squeeze(num(res)), want), "parameters", "addParam", "places of the elements of %s" % what, "%s instead of %s" % (r3(num(res)), r3(want)))
            for n, v in zip(names.ravel(), dflt.ravel()):
                declared(T, w, name, "addParam", str(n), (), 4, None)
                es = [e for e in w.m.equations if e.lhs is w.sym.get(str(n))]
                if any(isinstance(e.rhs, Unknown) for e in es):
                    raise Unknown("default of %s" % n)
                T.ob(len(es) == 1 and close(np.array(scal(es[0].rhs)), np.array(v)), "parameters", "addParam", "default value of %s" % n, "%s instead of %s" % ([e.rhs for e in es], v))
    return f


def measured(w):
    """sensors that are expressions of other sensors"""
    bs, js, fs = base(w)
    S = w.S.a["addSensor"]
    out = []
    for b in bs:
        w.values["cm_%s_r" % b.a["name"]] = (3, 1)
        w.values["cn_%s_r" % b.a["name"]] = (3, 1)
        w.values["E_%s" % b.a["name"]] = ()
    w.call(S, "CenterofMass", "cm", name="cm")
    w.call(S, "CenterofMass", "cn", [bs[2], bs[0]], name="cn")
    w.call(S, "Energy", "Etot", w.S, name="Et")
    for b in w.m_seq([bs[0], bs[1], bs[2]]):
        g = w.m.method(b, "__getattr__", "_CG")
        if isinstance(g, Obj):
            w.poses[g] = (b, w.mass[b][1], np.eye(3))
    return bs


def check_measured(T):
    def f(w, name, bs):
        def eq(n):
            es = [e for e in w.m.equations if isinstance(e.lhs, Obj) and e.lhs.a.get("name") == n]
            if len(es) != 1:
                raise Wrong("equation of %s" % n, "%d equations" % len(es), "addExpression")
            return num(es[0].rhs)
        for nm, l in (("cm", bs), ("cn", [bs[2], bs[0]])):
            m = sum(w.mass[b][0] for b in l)
            c = sum(w.mass[b][0] * num(w.sym["%s_%s_r" % (nm, b.a["name"])]) for b in l) / m
            T.ob(close(np.ravel(eq(nm + "_Mass")), np.array([m])), "expressions", "CenterofMass", "total mass %s" % nm, "%s instead of %s" % (eq(nm + "_Mass"), m))
            T.ob(close(eq(nm + "_r"), c), "expressions", "CenterofMass", "centre of mass %s" % nm, "%s instead of %s" % (eq(nm + "_r"), c))
            for b in l:
                g = w.m.method(b, "__getattr__", "_CG")
                if not isinstance(g, Obj):
                    raise Unknown("frame of the centre of mass")
                want = [("PositionSensor", [w.cs0(w.S), g])]
                have = [s for s in w.m_seq(w.glob("_sensors")) if s.a.get("symbol") is w.sym["%s_%s_r" % (nm, b.a["name"])]]
                if len(have) != 1:
                    raise Wrong("a sensor measures the centre of every body", "%d sensors" % len(have), "CenterofMass")
                T.ob(have[0].cls.name == "PositionSensor" and have[0].a["parent"] is w.ref(w.cs0(w.S)) and have[0].a["child"] is w.ref(g) and have[0].a["ref"] is w.ref(w.cs0(w.S)), "elements", "CenterofMass", "sensor of the centre of body %s: %s" % (b, nm), "%s" % have[0].a)
        T.ob(close(np.ravel(eq("Etot")), np.array([sum(scal(w.sym["E_%s" % b.a["name"]]) for b in bs)])), "expressions", "Energy", "total energy", "%s" % eq("Etot"))
    return f


def springs(w):
    """springs with dampers, hydraulic cylinders"""
    bs, js, fs = base(w)
    w.values.update({"dx_k1": (2, 1), "force_k1": ()})
    c, d, l = [float(x) for x in w.rng.uniform(1, 2, 3)]
    w.call(w.S, "addSpringDamper", fs[0], fs[2], c, d, l, "k1")
    w.values.update({"d_k2": (2, 1), "F_k2": ()})
    w.call(w.S, "addHydCylSensorsLoads", "k2", fs[1], fs[3])
    return fs, c, d, l


def check_springs(T):
    def f(w, name, x):
        fs, c, d, l = x
        dx = num(w.sym["dx_k1"])
        es = [e for e in w.m.equations if e.lhs is w.sym["force_k1"]]
        want = -c * (dx[0] - l) - d * dx[1]
        T.ob(len(es) == 1 and close(np.array(scal(es[0].rhs)), np.array(want)), "expressions", "addSpringDamper", "force of a spring with damper", "%s instead of %s" % ([e.rhs for e in es], want))
        r = w.ref
        twins(T, "convertSensors", "pymbs.processing.sensors.", w, name, w.glob("_sensors"), [("DistanceSensor", "dx_k1", ["dx_k1", r(fs[0]), r(fs[2]), w.sym["dx_k1"], None], {}), ("DistanceSensor", "d_k2", ["d_k2", r(fs[1]), r(fs[3]), w.sym["d_k2"], None], {})])
        twins(T, "convertLoads", "pymbs.processing.loads.", w, name, w.glob("_loads"), [("PtPForce", "PtPForce_k1", ["PtPForce_k1", r(fs[0]), r(fs[2]), w.sym["force_k1"]], {}), ("PtPForce", "PtPForce_k2", ["PtPForce_k2", r(fs[1]), r(fs[3]), w.sym["F_k2"]], {})])
    return f


def generated(w):
    bs, js, fs = base(w)
    w.call(w.S.a["addSensor"], "Position", "s", fs[0], fs[1], name="S")
    w.call(w.S.a["addLoop"], "Transmission", js[0], js[2], 2.5, name="LT")


def anything(n, welds=True):
    """a random tree of bodies: joints of any kind, fixed joints, any order of the description"""
    def build(w):
        rng = w.rng
        bs = [w.body() for _ in range(n)]
        todo = []
        for k, b in enumerate(bs):
            a = w.S if k == 0 or rng.random() < 0.15 else bs[int(rng.integers(0, k))]
            if welds and rng.random() < 0.35:
                d = [None, []][int(rng.integers(0, 2))]
            else:
                d = [("RT"[int(rng.integers(0, 2))] + "xyz"[int(rng.integers(0, 3))]) for _ in range(int(rng.integers(1, 4)))]
                d = [x for i, x in enumerate(d) if x not in d[:i]]
            todo.append((a, b, d))
        def at(b):
            for _ in range(int(rng.integers(0, 3))):
                b = w.frame(b, turn=rng.random() < 0.8)
            return b
        moving = False
        for i in rng.permutation(n):
            a, b, d = todo[i]
            m = len(d or ())
            q = [float(x) for x in rng.uniform(-1, 1, m)] if m and rng.random() < 0.6 else None
            w.joint(at(a), at(b), d[0] if m == 1 and rng.random() < 0.5 else d, q, q[::-1] if q and rng.random() < 0.5 else None)
            moving |= m > 0
        for b in bs:
            at(b)
        if not moving:
            w.joint(w.S, w.body(), "Rx")
    return build


WANTED = dict(graph="graph", inertialBody="_pInertialBody", gravity="_gravity", sensors="_sensors", loops="_loops")


def check_generator(T, meth, a, k):
    def f(w, name, x):
        gs = w.m.hooks["generators"]
        if len(gs) != 1 or gs[0].a["name"] != GENS[meth]:
            raise Wrong("the generator that was asked for derives the equations", "%s" % gs, "genEquations")
        args, kw = gs[0].given
        T.ob(w.S.a.get("state") is gs[0].a["state"], "generator", "genEquations", "the model knows the states of the generator: %s" % name, "%s" % w.S.a.get("state"))
        cls = T.sh.P.lookup("pymbs.processing.generator_order_n" if meth == "OrderN" else "pymbs.processing." + GENS[meth].lower(), GENS[meth])
        names = [p.arg for p in T.sh.P.method(cls, "__init__").node.args.args][1:]
        given = dict(zip(names, args))
        given.update(kw)
        for n in names[1:]:
            u = n
            want = w.graph if n == "graph" else w.glob(WANTED[n]) if n in WANTED else dict(diff=0, kinematicsOnly=False, **{}).get(n)
            if n in ("diff", "kinematicsOnly"):
                want = dict(zip(("diff", "kinematicsOnly"), a)).get(n, k.get(n, want))
            elif n not in WANTED:
                continue
            v = given.get(n)
            if isinstance(v, Unknown):
                raise v
            T.ob(same(v, want), "generator", "genEquations", "argument %s of the generator: %s" % (n, name), "%s instead of %s" % (v, want))
    return f


def run(prop, tier):
    np.seterr(all="ignore")
    T = T01(prop, tier)
    G = [T.geometry]
    T.scenario("chain of all degrees of freedom", chain(["Rx", "Ry", "Rz", "Tx", "Ty", "Tz"]), G)
    T.scenario("chain of joints with several degrees of freedom", chain([["Rx", "Ty"], "Rz", ["Tz", "Tx", "Ry"]]), G)
    for f in (multi, order, plain):
        T.scenario(f.__doc__, f, G)
    for k in ("chain", "chain backwards", "world", "two", "moved"):
        T.scenario("fixed joints, " + k, weld(k), G)
    T.scenario("loads", loads, G + [check_loads(T)])
    T.scenario("sensors", sensors, G + [check_sensors(T)])
    for kind, args in (("FourBar", []), ("FourBar", [-1]), ("ThreeBarTrans", []), ("CrankSlider", []), ("FourBarTrans", []), ("Steering", []), ("Steering", [-1, 1]), ("Steering", [1, -1])):
        for swap in (False, True)[:1 if kind == "Steering" else 2]:
            T.scenario("%s%s%s" % (kind, args or "", ", frames exchanged" if swap else ""), loops(kind, args, swap), [check_loops(T)])
    T.scenario(parameters.__doc__, parameters, [check_parameters(T)])
    T.scenario(measured.__doc__, measured, G + [check_measured(T)])
    T.scenario(springs.__doc__, springs, G + [check_springs(T)])
    T.scenario("transmissions", joints, [check_loops(T)])
    T.scenario("constraints", constraints, G + [check_constraints(T)])
    for g in ([0, -1, 0], [0.6, 0.0, 0.8], [0, 0, 0]):
        T.scenario("gravity %s" % g, plain, G, gravity=g)
    for meth, a, k in (("Explicit", [], {}), ("Recursive", [], {}), ("OrderN", [], {}), ("Explicit", [2], {}), ("Explicit", [], dict(kinematicsOnly=True)), ("Recursive", [1, True], {}), ("OrderN", [], dict(kinematicsOnly=True, diff=3))):
        T.scenario("genEquations.%s%s%s" % (meth, a or "", k or ""), generated, [check_generator(T, meth, a, k)], gen=(meth, a, k))
    for k in range(4 if T.quick else 60):
        T.scenario("random mechanism %d" % k, anything(2 + k % 6), G, gravity=[float(x) for x in T.rng.uniform(-1, 1, 3)])
    for f in sorted(T.funcs):
        T.R.note("summarised: %s" % (f if isinstance(f, str) else getattr(f, "qual", f)))
    return T.R.finish("The summaries of the input layer are evaluated on described mechanisms", ASSUME, min_ok=1)
