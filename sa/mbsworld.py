"""Reference mechanisms: trees of rigid bodies with frames and joints, positions and orientations as series in the coordinates."""
import numpy as np

from jets import M, Ring, rot, skew, axial, vstack
from pyeval import Obj, Unknown


def expr(m):
    return M(m.R, m.a, m.o, "expr")


class World:
    """shape: list of (parent body index, kind 'r'/'t'); body 0 is the inertial one"""

    def __init__(self, I, rng, tree, order=2, explicit=False, basis=False, geom=None):
        """geom: joint number -> (axis, point in the parent body); the frames of these joints are aligned"""
        self.I, self.rng, self.tree = I, rng, tree
        self.explicit = explicit
        n = self.n = len(tree)
        self.free = list(range(n))
        self.leaves = []
        names = ["q%d" % i for i in range(n)] + ["qd%d" % i for i in range(n)]
        R = self.R = Ring(names, order)
        P = I.P
        self.cBody = P.get("pymbs.processing.body", "Body")
        self.cFrame = P.get("pymbs.processing.frame", "Frame")
        self.cJoint = P.get("pymbs.processing.joint", "Joint")
        self.q = [expr(R.var("q%d" % i, rng.uniform(0.3, 1.2))) for i in range(n)]
        self.qd = [expr(R.var("qd%d" % i, rng.uniform(0.3, 1.2))) for i in range(n)]
        self.qdd = [expr(R.mat(rng.uniform(0.3, 1.2))) for i in range(n)]
        self.qname = {}
        self.g = M(R, R.mat(rng.uniform(-9, 9, 3)).a, None, "matrix")
        self.bodies, self.joints, self.frames, self.fels = [], [], [], []
        self.graph = Obj(None, name="graph")
        for i in range(n + 1):
            b = Obj(self.cBody, name="b%d" % i, joint=None, children=[], index=i - 1 if i else None, graph=self.graph, I_r=None, I_v=None, I_a=None, I_l=None, I_R=None, K_om=None, K_al=None, loads=[])
            if i:
                b.a["mass"] = expr(R.mat(rng.uniform(0.5, 2)))
                A = rng.uniform(-1, 1, (3, 3))
                b.a["inertia"] = self.mat(A @ A.T + np.eye(3))
                b.a["cg"] = self.mat(rng.uniform(-1, 1, 3))
            else:
                b.a["mass"] = 0
                b.a["inertia"] = self.zeros(3, 3)
                b.a["cg"] = self.zeros(3, 1)
            self.bodies.append(b)
            b.a["CS_0"] = self.frame(b, "cs0_%d" % i, zero=True)
        for i, (p, kind) in enumerate(tree):
            f = self.frame(self.bodies[p], "f%d" % i, at=geom[i][1] if geom else None)
            ax = rng.uniform(-1, 1, 3)
            ax /= np.linalg.norm(ax)
            if basis:
                ax = np.eye(3)[rng.integers(3)]
            if geom:
                ax = np.array(geom[i][0], float)
            q = self.q[i]
            jR = M(R, rot(ax, q).a, None, "matrix") if kind == "r" else M(R, R.const(np.eye(3)), None, "eye")
            z = self.zeros(3, 1)
            j = Obj(self.cJoint, name="j%d" % i, coordSys=f, body=self.bodies[i + 1], Phi=self.mat(ax) if kind == "r" else z, Psi=self.mat(ax) if kind == "t" else z, R=jR,
                    q=q, qd=self.qd[i], qdd=self.qdd[i], q0=0.1, qd0=0.2, IsIndependent=True, F=z, L=z, graph=self.graph)
            f.joints.append(j)
            self.bodies[i + 1].a["joint"] = j
            self.joints.append(j)
            self.axis = getattr(self, "axis", []) + [(kind, ax)]
        self.reference()
        self.inertial = self.bodies[0]

    def mat(self, x):
        m = self.R.mat(x)
        m.kind = "matrix"
        return m

    def zeros(self, r, c):
        return M(self.R, np.zeros((r, c, self.R.N)), None, "zeros")

    def setq(self, i, q):
        """the coordinate of joint i becomes a function of the others"""
        kind, ax = self.axis[i]
        j = self.joints[i]
        self.q[i] = j.a["q"] = q
        if self.which(q) != self.R.names.index("q%d" % i) and i in self.free:
            self.free.remove(i)
        if kind == "r":
            j.a["R"] = M(self.R, rot(ax, q).a, None, "matrix")

    def frame(self, b, name, zero=False, at=None):
        rng = self.rng
        if at is not None:
            p, Rm = self.mat(np.array(at, float)), M(self.R, self.R.const(np.eye(3)), None, "eye")
        elif zero:
            p, Rm = self.zeros(3, 1), M(self.R, self.R.const(np.eye(3)), None, "eye")
        else:
            p = self.mat(rng.uniform(-1, 1, 3))
            ax = rng.uniform(-1, 1, 3)
            ax /= np.linalg.norm(ax)
            Rm = M(self.R, rot(ax, self.R.mat(rng.uniform(0.3, 2))).a, None, "matrix")
        f = Obj(self.cFrame, name=name, p=p, R=Rm, parentBody=b, joints=[], loads=[], graph=self.graph, I_r=None, I_v=None, I_a=None, I_R=None, K_om=None, K_al=None)
        b.children.append(f)
        self.frames.append(f)
        return f

    # ------------------------------------------------------------ calculus
    def D(self, m):
        out = None
        for i in self.free:
            for v, d in (("q%d" % i, self.qd[i]), ("qd%d" % i, self.qdd[i])):
                t = m.diff(self.R.names.index(v)) * d
                out = t if out is None else out + t
        return out

    def which(self, s):
        """name of the ring variable a scalar series is"""
        for i, n in enumerate(self.R.names):
            m = [0] * len(self.R.names)
            m[i] = 1
            k = self.R.pos[tuple(m)]
            if s.a[0, 0, k] == 1 and np.count_nonzero(s.a[0, 0, 1:]) == 1:
                return i
        return None

    def jacobian(self, a, b):
        cols = []
        if b.shape[1] != 1 or a.shape[1] != 1:
            raise Unknown("shape of a jacobian")
        for i in range(b.shape[0]):
            v = self.which(b.get(i, 0))
            if v is None:
                cols.append(self.pick(a, b.get(i, 0)))
                continue
            cols.append(a.diff(v))
        o = min(c.o for c in cols)
        return M(self.R, np.concatenate([c.a for c in cols], axis=1), o, "matrix")

    def pick(self, a, x):
        """derivative of accelerations and constraint forces by one of them"""
        leaves = self.qdd + self.leaves
        if not any(np.array_equal(y.a, x.a) for y in leaves):
            raise Unknown("jacobian by something that is no variable")
        out = np.zeros((a.shape[0], 1))
        for k in range(a.shape[0]):
            e = a.get(k, 0)
            if not any(np.array_equal(y.a, e.a) for y in leaves) and not self.which(e) is not None:
                raise Unknown("derivative by an acceleration")
            out[k, 0] = np.array_equal(e.a, x.a)
        return self.R.mat(out)

    # ------------------------------------------------------------ reference motion
    def reference(self):
        R = self.R
        self.ref = {}
        b0 = self.bodies[0]
        self.ref[b0] = dict(r=R.mat(np.zeros(3)), R=R.mat(np.eye(3)))
        for i, (p, kind) in enumerate(self.tree):
            j = self.joints[i]
            P = self.ref[self.bodies[p]]
            f = j.coordSys
            Rf = P["R"] * f.R
            rf = P["r"] + P["R"] * f.p
            Rb = Rf * j.R
            rb = rf + Rf * (self.mat(self.axis[i][1]) * j.q) if kind == "t" else rf
            self.ref[self.bodies[i + 1]] = dict(r=rb, R=Rb)
        for f in self.frames:
            self.frame_ref(f)
        for b in self.bodies:
            r = self.ref[b]
            r["l"] = r["r"] + r["R"] * b.cg
            self.motion(r)
            r["ldot"] = self.D(r["l"])
            r["lddot"] = self.D(r["ldot"])

    def frame_ref(self, f):
        B = self.ref[f.parentBody]
        r = self.ref[f] = dict(R=B["R"] * f.R, r=B["r"] + B["R"] * f.p)
        self.motion(r)

    def motion(self, r):
        r["v"] = self.D(r["r"])
        r["a"] = self.D(r["v"])
        r["om"] = axial(self.D(r["R"]) * r["R"].T())
        r["al"] = self.D(r["om"])
        r["Kom"] = r["R"].T() * r["om"]
        r["Kal"] = r["R"].T() * r["al"]

    def partial(self, x, name):
        return x.diff(self.R.names.index(name))

    def dynamics(self, wrench=None):
        """mass matrix and bias of the tree (values): M qdd + h = 0 with gravity and applied wrenches {body: (F, L about the centre of gravity)} in inertial coordinates"""
        n = self.n
        Mm, res = np.zeros((n, n)), np.zeros(n)
        g = self.g.value()
        for b in self.bodies[1:]:
            r = self.ref[b]
            m = b.mass.value()[0, 0]
            Rv = r["R"].value()
            J = Rv @ b.inertia.value() @ Rv.T
            om, al = r["om"].value(), r["al"].value()
            F = m * (r["lddot"].value() - g)
            L = J @ al + np.cross(om[:, 0], (J @ om)[:, 0]).reshape(3, 1)
            if wrench and b in wrench:
                F = F - wrench[b][0]
                L = L - wrench[b][1]
            Jv = [self.partial(r["l"], "q%d" % i).value() for i in range(n)]
            Jw = [self.partial(r["om"], "qd%d" % i).value() for i in range(n)]
            for i in range(n):
                res[i] += (Jv[i].T @ F + Jw[i].T @ L)[0, 0]
                for k in range(n):
                    Mm[i, k] += (m * Jv[i].T @ Jv[k] + Jw[i].T @ J @ Jw[k])[0, 0]
        qdd = np.array([x.value()[0, 0] for x in self.qdd])
        return Mm, res - Mm @ qdd

    def generator(self, cls, **kw):
        """the generator object"""
        col = lambda l: M(self.R, np.concatenate([x.a for x in l], axis=0), None, "matrix")
        state = Obj(self.I.P.get("pymbs.common.state", "State"), q=list(self.q), qd=list(self.qd), qdd=list(self.qdd), mu=[])
        z = self.mat(np.full(self.n, 0.1))
        a = dict(name="gen", graph=self.graph, inertial=self.inertial, g=self.g, sensors=[], loops=[], diff=[0], kinematicsOnly=False, joints=list(self.joints), bodies=list(self.bodies), fels=list(self.fels),
                 q=col(self.q), qd=col(self.qd), qdd=col(self.qdd), q0=z, qd0=z, state=state, u=list(self.q), w=[], constraints=[])
        a.update(kw)
        return Obj(cls, **a)
