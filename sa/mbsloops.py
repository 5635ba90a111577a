"""Closed loops: the formulas of a loop class are compared with the closure of a mechanism of its kind."""
import numpy as np

from jets import M
from mbsrun import PR, Run
from mbsworld import World, expr
from pyeval import Machine, Unknown, Var

X, Y, Z = np.eye(3)
LP = PR + "loops."


class LoopRun(Run):
    """a mechanism with loops; `tree`: (parent body, kind, axis, point), `ends`: (body, point) of the frames the loops refer to,
    `loops`: (class, arguments) with ("F", k) for a frame and ("J", i) for a joint"""

    def __init__(self, sh, rng, tree, ends, loops, q=None, order=2):
        self.sh, self.rng, self.gen, self.kin = sh, rng, None, False
        W = self.W = World(sh.I0, rng, [(p, k) for p, k, _, _ in tree], order=order, geom=[(a, p) for _, _, a, p in tree])
        for i, v in (q or {}).items():
            W.setq(i, expr(W.R.var("q%d" % i, v)))
        W.reference()
        self.m = Machine(sh.P, sh.mk, W.R, {"jacobian": W.jacobian, "newvar": self.newvar, "der": lambda v: ("der", v)}, cache=sh.cache)
        self.table, self.loads, self.sensors, self.elems = {}, [], [], []
        self.loops = loops
        self.spec, self.places = tree, ends
        self.ends = [W.frame(W.bodies[b], "end%d" % k, at=p) for k, (b, p) in enumerate(ends)]
        for f in self.ends:
            W.frame_ref(f)

    def newvar(self, v):
        n = v.name
        W = self.W
        for k, (p, l) in enumerate((("qdd_j", W.qdd), ("qd_j", W.qd), ("q_j", W.q))):
            if isinstance(n, str) and n.startswith(p) and n[len(p):].isdigit():
                i = int(n[len(p):])
                return l[i]
        return self.table.get(n, v)

    def once(self):
        m = self.m
        m.equations.clear()
        m.unknown.clear()
        m.raised.clear()
        self.build()
        self.objs = construct(self, self.loops)
        return [m.method(l, "calc", self.W.graph) for l in self.objs]

    def index(self, x):
        """number of the joint a variable of the loop belongs to"""
        for name in ("q", "qd", "qdd"):
            for i, j in enumerate(self.js):
                if getattr(j, name) is x:
                    return name, i
        return None

    def attr(self, n, k=0):
        """the coordinates a list of loop k names"""
        return [self.index(x) for x in list(getattr(self.objs[k], n))]

    def solve(self):
        """dependent coordinates as functions of the independent ones; [(v, Bvu, b_prime)] of the last pass"""
        W = self.W
        out = None
        for _ in range(3 + len(self.loops)):
            out = self.once()
            same = True
            self.dep = []
            for k in range(len(self.loops)):
                names = self.attr("v", k)
                if None in names or len(names) != len(list(out[k][0])):
                    raise Unknown("the dependent coordinates of the loop are not coordinates of joints")
                for (_, i), x in zip(names, [expr(self.num(x)) for x in list(out[k][0])]):
                    self.dep.append(i)
                    if W.q[i].a.shape != x.a.shape or not np.allclose(W.q[i].a, x.a, atol=1e-12):
                        same = False
                    W.setq(i, x)
                    W.qd[i] = expr(W.D(x))
                    W.qdd[i] = expr(W.D(W.qd[i]))
                    j = W.joints[i]
                    j.a["qd"], j.a["qdd"] = W.qd[i], W.qdd[i]
            if same:
                break
        W.reference()
        for f in self.ends:
            W.frame_ref(f)
        return out

    def num(self, x):
        if isinstance(x, (int, float)):
            return self.W.R.mat(float(x))
        if isinstance(x, M):
            return x
        raise Unknown("%r" % (x,))


def construct(r, loops):
    """the loop objects of a scenario"""
    out = []
    for k, (cls, args) in enumerate(loops):
        a = [r.ends[x[1]].twin if isinstance(x, tuple) and x[0] == "F" else r.js[x[1]] if isinstance(x, tuple) and x[0] == "J" else x for x in args]
        out.append(r.m.construct(r.sh.cls(*cls), "loop%d" % k, *a))
    return out


class LoopDyn(Run):
    """a generator on a mechanism with loops; src: the solved LoopRun"""

    def __init__(self, sh, gen, src, rng, kin=False, frames=1):
        S = src.W
        tree = src.spec
        W = World(sh.I0, rng, [(p, k) for p, k, _, _ in tree], geom=[(a, p) for _, _, a, p in tree])
        for i in range(W.n):
            v, vd, vdd = (float(x[i].value()[0, 0]) for x in (S.q, S.qd, S.qdd))
            W.setq(i, expr(W.R.var("q%d" % i, v)))
            W.qd[i] = W.joints[i].a["qd"] = expr(W.R.var("qd%d" % i, vd))
            W.qdd[i] = W.joints[i].a["qdd"] = expr(W.R.mat(vdd))
        W.reference()
        Run.__init__(self, sh, gen, [(p, k) for p, k, _, _ in tree], rng, kin=kin, frames=frames, world=W)
        self.src = src
        self.ends = [W.frame(W.bodies[b], "end%d" % k, at=p) for k, (b, p) in enumerate(src.places)]
        for f in self.ends:
            W.frame_ref(f)
        u = [i for i in range(W.n) if i not in src.dep]
        self.u = u
        # accelerations of all joints: qdd = J udd + d
        n = W.n
        J, d = np.zeros((n, len(u))), np.zeros(n)
        for k, i in enumerate(u):
            J[i, k] = 1
        for i in src.dep:
            for k, j in enumerate(u):
                J[i, k] = S.qd[i].diff(S.R.names.index("qd%d" % j)).value()[0, 0]
            d[i] = float(S.qdd[i].value()[0, 0]) - sum(J[i, k] * float(S.qdd[j].value()[0, 0]) for k, j in enumerate(u))
        self.J, self.d = J, d

    def addloops(self):
        self.objs = construct(self, self.src.loops)
        return list(self.objs)

    def go(self, sensors=(), passes=12):
        W = self.W
        Mm, h = self.dynamics()
        J = self.J
        self.solu = np.linalg.solve(J.T @ Mm @ J, -J.T @ (Mm @ self.d + h))
        self.sol = J @ self.solu + self.d
        if self.gen == "ordern":
            for q, v in zip(W.qdd, self.sol):
                q.a[0, 0, 0] = v
            W.reference()
            for l in self.extra + [self.ends]:
                for f in l:
                    W.frame_ref(f)
        else:
            passes = 1
        for _ in range(passes):
            if not self.pass_(sensors):
                break
        return self


# ---------------------------------------------------------------- mechanisms
def perm(ax):
    """rotation of the axes that takes z to the axis: plane vectors (a, b) and an offset along the axis to a point"""
    k = [X, Y, Z].index(ax) if not isinstance(ax, np.ndarray) else int(np.argmax(ax))
    o = [(1, 2), (0, 2), (0, 1)][k]

    def pt(a, b, h=0.0):
        p = np.zeros(3)
        p[o[0]], p[o[1]], p[k] = a, b, h
        return list(p)
    return pt, np.eye(3)[o[0]], np.eye(3)[o[1]], np.eye(3)[k]


def axes():
    for k, n in enumerate("xyz"):
        yield n, perm(np.eye(3)[k])


def fourbar(rng, pt, ax, posture):
    """links such that the mechanism closes at the angle q"""
    while True:
        P = rng.uniform(-2, 2, (4, 2))
        l = [np.linalg.norm(P[i]) for i in range(4)]
        q = rng.uniform(-1.5, 1.5)
        A, D, B2, C3, C4 = rng.uniform(-1, 1, 2), None, P[1], P[2], P[3]
        D = A + P[0]
        # orientation of the rotation in the plane (x, z) is negative
        s = -1 if ax[1] else 1
        c, sn = np.cos(s * q), np.sin(s * q)
        B = A + np.array([c * B2[0] - sn * B2[1], sn * B2[0] + c * B2[1]])
        d = np.linalg.norm(D - B)
        if min(l) < 0.4 or not abs(l[2] - l[3]) + 0.2 < d < l[2] + l[3] - 0.2:
            continue
        return A, D, B2, C3, C4, q


def cases(rng, full=True):
    """(name, tree, ends, loops, coordinates): one loop of every class and orientation, then several loops"""
    for name, tree, ends, cls, args, q in single(rng):
        yield name, tree, ends, [(cls, (("F", 0), ("F", 1)) + args)], q
    yield from several(rng)


def transmission(i, j, ratio):
    return (LP + "transmission", "Transmission"), (("J", i), ("J", j), ratio)


def fourbar_part(rng, ax, first, body=0, posture=1):
    """a four bar whose first joint has the number `first` and sits on `body`"""
    pt = perm(ax)[0]
    A, D, B, C3, C4, q = fourbar(rng, pt, ax, posture)
    tree = [(body, "r", ax, pt(*A)), (first + 1, "r", ax, pt(*B)), (body, "r", ax, pt(*D))]
    return tree, [(first + 2, pt(*C3)), (first + 3, pt(*C4))], q


def several(rng):
    """loops that depend on each other, in every order"""
    U = rng.uniform
    for ratio in (-2, 0.5):
        yield "Transmission, ratio %s" % ratio, [(0, "r", X, [0, 0, 0]), (1, "r", Z, list(U(-1, 1, 3)))], [], [transmission(0, 1, ratio)], {0: U(0.3, 1)}
    F = LP + "fourbar", "FourBar"
    # a shaft driven by the rocker of a four bar, and a shaft driven by that one
    tree, ends, q = fourbar_part(rng, Z, 0)
    tree = tree + [(1, "r", Z, list(U(-1, 1, 3))), (0, "r", Y, list(U(-1, 1, 3)))]
    chain = [(F, (("F", 0), ("F", 1), 1)), transmission(2, 3, -1.5), transmission(3, 4, 0.75)]
    for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
        yield "FourBar, Transmission, Transmission in the order %s" % (o,), tree, ends, [chain[i] for i in o], {0: q}
    # two independent loops and a free joint between their coordinates
    t1, e1, q1 = fourbar_part(rng, X, 0)
    t2, e2, q2 = fourbar_part(rng, Y, 4, 4, -1)
    tree = t1 + [(2, "t", Z, list(U(-1, 1, 3)))] + t2
    pair = [(F, (("F", 0), ("F", 1), 1)), (F, (("F", 2), ("F", 3), -1))]
    for o in ((0, 1), (1, 0)):
        yield "two FourBars and a free joint in the order %s" % (o,), tree, e1 + e2, [pair[i] for i in o], {0: q1, 3: U(-1, 1), 4: q2}


def single(rng):
    """(name, tree, ends, (module, class), further arguments, coordinates)"""
    U = rng.uniform
    for n, (pt, e1, e2, ax) in axes():
        for posture in (1, -1):
            for swap in (False, True):
                A, D, B, C3, C4, q = fourbar(rng, pt, ax, posture)
                tree = [(0, "r", ax, pt(*A)), (1, "r", ax, pt(*B)), (0, "r", ax, pt(*D))]
                ends = [(2, pt(*C3)), (3, pt(*C4))]
                yield ("FourBar about %s, posture %d%s" % (n, posture, ", frames exchanged" if swap else ""), tree, ends[::-1] if swap else ends, (LP + "fourbar", "FourBar"), (posture,), {0: q})
        for sl in (e1, e2):
            for swap in (False, True):
                for sgn in (1, -1):
                    A, D, B = U(-1, 1, 2), U(2, 4, 2) * rng.choice([-1, 1], 2), U(0.5, 1, 2)
                    h = U(-1, 1, 3)
                    tree = [(0, "r", ax, pt(*A, h[0])), (0, "r", ax, pt(*D, h[0] + h[1])), (2, "t", sl, [0, 0, 0])]
                    ends = [(1, pt(*B, h[1])), (3, [0, 0, 0])]
                    m = "xyz"[int(np.argmax(sl))]
                    yield ("ThreeBarTrans about %s, sliding along %s%s, angle %d" % (n, m, ", frames exchanged" if swap else "", sgn), tree, ends[::-1] if swap else ends, (LP + "threebar_trans", "ThreeBarTrans"), (),
                           {0: sgn * U(0.5, 2.5)})
                    A, D, B, C = U(-1, 1, 2), U(3, 5, 2) * rng.choice([-1, 1], 2), U(0.5, 1, 2), U(0.5, 1, 2)
                    tree = [(0, "r", ax, pt(*A, h[0])), (1, "r", ax, pt(*B, h[1])), (0, "r", ax, pt(*D, h.sum())), (3, "t", sl, [0, 0, 0])]
                    ends = [(2, pt(*C, h[2])), (4, [0, 0, 0])]
                    yield ("FourBarTrans about %s, sliding along %s%s, angle %d" % (n, m, ", frames exchanged" if swap else "", sgn), tree, ends[::-1] if swap else ends, (LP + "fourbar_trans", "FourBarTrans"), (),
                           {0: sgn * U(0.3, 1.5), 1: U(-1, 1)})
                if True:
                    l1, l2 = U(0.5, 1), U(1.5, 3)
                    a = (1, 0) if sl is e1 else (0, 1)
                    h = U(-1, 1)
                    tree = [(0, "r", ax, [0, 0, 0]), (0, "t", sl, [0, 0, 0]), (2, "r", ax, [0, 0, 0])]
                    ends = [(1, pt(l1 * a[0], l1 * a[1], h)), (3, pt(l2 * a[0], l2 * a[1], h))]
                    yield ("CrankSlider about %s, sliding along %s%s" % (n, m, ", frames exchanged" if swap else ""), tree, ends[::-1] if swap else ends, (LP + "crank_slider", "CrankSlider"), (), {0: U(0.3, 3)})
    for sH in (1, -1):
        for sS in (1, -1):
            A = U(-1, 1, 2)
            H0, R2, R3, L1 = sH * U(0.3, 0.6), U(1.5, 2), U(0.7, 1.2), U(0.5, 1)
            for _ in range(100):
                v0, q4 = U(-0.5, 0.5), None
                s4 = (R2 * np.sin(-sS * v0) - H0) / R3
                if abs(s4) < 0.9:
                    break
            q1 = U(-0.2, 0.2)
            k0 = R2 * np.cos(v0) - R3 * np.sqrt(1 - s4 * s4)
            L0 = k0 + L1 + sS * q1
            if L0 < 0.1:
                L1 += 0.5 - L0
                L0 = k0 + L1 + sS * q1
            tree = [(0, "t", Y, [A[0], A[1], 0]), (1, "r", Z, [0, sS * L1, 0]), (2, "r", Z, [0, sS * R2, 0])]
            ends = [(0, [A[0] + H0, A[1] + sS * L0, 0]), (3, [R3, 0, 0])]
            yield ("Steering, setUpH %d, setUpS %d" % (sH, sS), tree, ends, (LP + "steering", "Steering"), (sH, sS), {0: q1})
    b, t = U(-0.5, 0.5, 3), U(-0.4, 0.4, 3)
    tree = [(0, "t", X, [0, 0, 0]), (1, "t", Y, [0, 0, 0]), (2, "t", Z, [0, 0, 0]), (3, "r", X, [0, 0, 0]), (4, "r", Y, [0, 0, 0]), (5, "r", Z, [0, 0, 0]),
            (0, "r", Y, list(b)), (7, "r", Z, [0, 0, 0]), (8, "t", X, [0, 0, 0])]
    if True:
        ends = [(6, list(t)), (9, [0, 0, 0])]
        yield ("Hexapod axis", tree, ends, (LP + "hexapod", "Hexapod"), (), {0: U(1.5, 2), 1: U(-0.5, 0.5), 2: U(-0.5, 0.5), 3: U(-0.5, 0.5), 4: U(-0.5, 0.5), 5: U(-0.5, 0.5)})
