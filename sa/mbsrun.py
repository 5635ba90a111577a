"""Scenarios: the generators' source, summarised function by function, is evaluated on a reference mechanism; every
quantity it derives is compared with the reference motion and the Newton-Euler equations."""
import os

import numpy as np

from jets import M
from load import REPO
from mbsworld import World, expr
from pyeval import Machine, Obj, Unknown, Var
from pymodel import Program, interp

PR = "pymbs.processing."
GEN = {"explicit": (PR + "generator_explicit", "Generator_Explicit"), "recursive": (PR + "generator_recursive", "Generator_Recursive"), "ordern": (PR + "generator_order_n", "Generator_OrderN")}
LOAD = {"CmpForce": PR + "loads.cmp_force", "CmpTorque": PR + "loads.cmp_torque", "PtPForce": PR + "loads.ptp_force", "JointLoad": PR + "loads.joint_load",
        "Constraint": PR + "loads.constraint"}
TREES = {
    "single rotation": [(0, "r")],
    "single translation": [(0, "t")],
    "rotations in a chain": [(0, "r"), (1, "r"), (2, "r")],
    "translation, rotation, translation": [(0, "t"), (1, "r"), (2, "t")],
    "branches": [(0, "r"), (1, "t"), (1, "r"), (3, "r")],
    "two roots": [(0, "r"), (1, "r"), (0, "t"), (3, "r")],
}


class Shared:
    def __init__(self, root=REPO):
        self.P = Program(root)
        self.root = root
        self.I0 = self.mk(self.P)
        self.cache = {}

    def mk(self, P):
        I = interp(self.root)
        I.P = P
        return I

    def cls(self, mod, name):
        c = self.P.get(mod, name)
        return c


class Run:
    def __init__(self, sh, gen, tree, rng, kin=False, frames=1, axes=None, world=None):
        self.sh, self.gen, self.kin = sh, gen, kin
        W = self.W = World(sh.I0, rng, tree, basis=True) if world is None else world
        self.rng = rng
        m = self.m = Machine(sh.P, sh.mk, W.R, {"jacobian": W.jacobian, "newvar": self.newvar, "der": lambda v: ("der", v)}, cache=sh.cache)
        self.table, self.loads, self.sensors, self.elems = {}, [], [], []
        self.extra = [[W.frame(b, "x%d_%d" % (i, k)) for k in range(frames)] for i, b in enumerate(W.bodies)]
        for l in self.extra:
            for f in l:
                W.frame_ref(f)
        self.steps = []
        self.unknowns = {}
        self.locks = []

    def newvar(self, v):
        n = v.name
        W = self.W
        for p, l in (("qdd_j", W.qdd), ("qd_j", W.qd), ("q_j", W.q)):
            if isinstance(n, str) and n.startswith(p) and n[len(p):].isdigit():
                return l[int(n[len(p):])]
        if isinstance(n, str) and n[:2] in ("F_", "T_") and n not in self.table:
            # a constraint force: no result may depend on the value it has here
            if n not in self.unknowns:
                self.unknowns[n] = expr(W.R.mat(self.rng.uniform(1, 2)))
                W.leaves.append(self.unknowns[n])
            return self.unknowns[n]
        return self.table.get(n, v)

    # ------------------------------------------------------------ the model
    def build(self):
        W, m = self.W, self.m
        g = W.graph
        cB = self.sh.cls(PR + "body", "Body")
        self.bs = [m.construct(cB, "b%d" % i, b.mass, b.cg, b.inertia, g) for i, b in enumerate(W.bodies)]
        for f in W.frames:
            i = W.bodies.index(f.parentBody)
            if f is f.parentBody.CS_0:
                f.a["twin"] = self.bs[i].CS_0
            else:
                f.a["twin"] = m.method(self.bs[i], "addFrame", f.name, f.p, f.R)
        self.js = []
        for i, (p, k) in enumerate(W.tree):
            f = W.joints[i].coordSys.twin
            self.js.append(m.method(f, "connectTo", self.bs[i + 1], "Rot" if k == "r" else "Trans", W.mat(W.axis[i][1]), "j%d" % i, 0.1 + 0.1 * i, 0.2 + 0.1 * i))

    def wrench(self):
        """applied wrenches {body: (F, L about the centre of gravity)}"""
        W, out = self.W, {}
        z = lambda: np.zeros((3, 1))

        def add(f, F, L):
            b = f.parentBody
            if b is W.bodies[0]:
                return
            arm = W.ref[f]["r"].value() - W.ref[b]["l"].value()
            o = out.setdefault(b, [z(), z()])
            o[0] = o[0] + F
            o[1] = o[1] + L + np.cross(arm[:, 0], F[:, 0]).reshape(3, 1)
        for (par, chi, F, L) in self.loads:
            add(par, F, L)
            add(chi, -F, -L)
        return out

    def dynamics(self):
        return self.W.dynamics({b: tuple(v) for b, v in self.wrench().items()})

    def plan(self, spec):
        """spec: list of ('CmpForce'|..., parent frame, child frame, reference frame or None) or ('JointLoad', joint index)"""
        W, rng = self.W, self.rng
        z = np.zeros((3, 1))
        for k, s in enumerate(spec):
            kind = s[0]
            if kind == "JointLoad":
                f = expr(W.R.mat(rng.uniform(-3, 3)))
                i = s[1]
                t, ax = W.axis[i]
                v = W.ref[W.bodies[i + 1]]["R"].value() @ np.array(ax).reshape(3, 1) * f.value()
                self.loads.append((W.bodies[i + 1].CS_0, W.joints[i].coordSys) + ((z, v) if t == "r" else (v, z)))
                self.elems.append((kind, "ld%d" % k, (i,), f))
            else:
                par, chi, ref = s[1:]
                rr = W.ref[ref if ref is not None else par]["R"].value()
                if kind == "PtPForce":
                    f = expr(W.R.mat(rng.uniform(-3, 3)))
                    d = W.ref[par]["r"].value() - W.ref[chi]["r"].value()
                    self.loads.append((par, chi, d / np.linalg.norm(d) * f.value(), z))
                else:
                    f = expr(W.R.mat(rng.uniform(-3, 3, 3)))
                    v = rr @ f.value()
                    self.loads.append((par, chi) + ((v, z) if kind == "CmpForce" else (z, v)))
                self.elems.append((kind, "ld%d" % k, (par, chi, ref), f))

    def rows(self):
        """the constraints on acceleration level: A qdd + b = 0, relative accelerations along the locked axes of the parent frame"""
        W = self.W
        A, b = [], []
        for par, chi, tr, ro in self.locks:
            Rp = W.ref[par]["R"].value()
            for k, var, lock in (("r", "q", tr), ("om", "qd", ro)):
                d = W.ref[par][k] - W.ref[chi][k]
                J = [Rp.T @ W.partial(d, var + str(i)).value() for i in range(W.n)]
                acc = Rp.T @ (W.ref[par]["a" if k == "r" else "al"].value() - W.ref[chi]["a" if k == "r" else "al"].value())
                for i in range(3):
                    if lock[i]:
                        A.append([x[i, 0] for x in J])
                        b.append(acc[i, 0])
        A, b = np.array(A), np.array(b)
        qdd = np.array([x.value()[0, 0] for x in W.qdd])
        return A, b - A @ qdd

    def addloads(self):
        for par, chi, tr, ro in self.locks:
            self.m.construct(self.sh.cls(LOAD["Constraint"], "Constraint"), "c%d" % self.locks.index((par, chi, tr, ro)), par.twin, chi.twin, list(tr), list(ro))
        for kind, name, a, f in self.elems:
            cls = self.sh.cls(LOAD[kind], kind)
            if kind == "JointLoad":
                self.m.construct(cls, name, self.js[a[0]], f)
            else:
                par, chi, ref = a
                args = [name, par.twin, chi.twin, f]
                if kind != "PtPForce":
                    args.append(None if ref is None else ref.twin)
                self.m.construct(cls, *args)

    def addsensors(self, specs):
        """specs: list of (module, class, args)"""
        out = []
        for k, (mod, cls, args, kw) in enumerate(specs):
            v = Var(None, name="s%d" % k)
            a = [x.twin if isinstance(x, Obj) and "twin" in x.a else x for x in args]
            out.append(self.m.construct(self.sh.cls(mod, cls), "sens%d" % k, *[x(self) if callable(x) else (v if x == "sym" else x) for x in a], **kw))
        return out

    def addloops(self):
        return None

    def pass_(self, sensors=()):
        m = self.m
        m.equations.clear()
        m.unknown.clear()
        m.raised.clear()
        self.build()
        self.addloads()
        self.sens = self.addsensors(sensors)
        cls = self.sh.cls(*GEN[self.gen])
        self.g = m.construct(cls, "gen", self.W.graph, self.bs[0], self.W.g, self.sens, self.addloops(), 0, self.kin)
        if m.unknown:
            self.ctor_unknown = [str(u) for u in m.unknown]
        m.method(self.g, "getSystemEqns")
        n = 0
        for e in m.equations:
            if isinstance(e.lhs, Var) and isinstance(e.rhs, M) and e.lhs.name not in self.table:
                self.table[e.lhs.name] = e.rhs
                n += 1
        return n

    def go(self, sensors=(), consistent=None, passes=12):
        """consistent: joint accelerations are those of the equations of motion"""
        if consistent is None:
            consistent = self.gen == "ordern"
        Mm, h = self.dynamics()
        self.sol = np.linalg.solve(Mm, -h)
        if self.locks:
            A, b = self.rows()
            k = len(b)
            self.sol = np.linalg.solve(np.block([[Mm, A.T], [A, np.zeros((k, k))]]), np.concatenate([-h, -b]))[:len(h)]
        if consistent:
            for q, v in zip(self.W.qdd, self.sol):
                q.a[0, 0, 0] = v
            W = self.W
            W.reference()
            for l in self.extra:
                for f in l:
                    W.frame_ref(f)
        if self.gen != "ordern":
            passes = 1
        for _ in range(passes):
            if not self.pass_(sensors):
                break
        return self

    # ------------------------------------------------------------ results
    def val(self, x):
        if isinstance(x, Var):
            x = self.table.get(x.name, x)
        if isinstance(x, M):
            return x.value()
        if isinstance(x, (int, float)):
            return np.array([[float(x)]])
        return None

    def writer(self, obj, attr):
        """constructs that store the attribute"""
        return self.m.stored.get((obj, attr), [])
