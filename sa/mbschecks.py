"""Obligations about the generators (K01, D01, D02, D03, K03)."""
import os

import numpy as np

import load
from jets import M
from mbsrun import GEN, PR, REPO, TREES, Run, Shared
from pyeval import Unknown, Var
from report import Report

ASSUME = ["a summary term that agrees with the reference at random mechanisms and random states agrees identically (the terms are analytic in all parameters)",
          "the models of the symbolic layer (Matrix, jacobian, solve, ...) mean what the S and X properties decide about the C++ sources",
          "assert statements hold",
          "flexible bodies are outside (their equations come from SID data files)"]
TOL = 1e-7


def trees(tier, rng):
    out = list(TREES.items())
    if tier != "quick":
        for k in range(14):
            n = int(rng.integers(1, 6))
            out.append(("random tree %d" % k, [(int(rng.integers(0, i + 1)), "rt"[int(rng.integers(2))]) for i in range(n)]))
    return out


def close(a, b, tol=TOL):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


class Check:
    def __init__(self, prop, tier, rule):
        self.R = Report(prop, tier, rule)
        self.tier = tier
        self.sh = Shared(REPO)
        self.rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1") or 1) + 100)
        self.quick = tier == "quick"
        self.funcs = set()

    def file(self, mod):
        return os.path.join(REPO, mod) if not os.path.isabs(mod) else mod

    def run(self, gen, name, tree, setup=None, sensors=(), kin=False, **kw):
        """a scenario, or None with an undecided (or violated) obligation"""
        accept, frames = kw.pop("accept", None), kw.pop("frames", 1)
        r = None
        try:
            for _ in range(50):
                seed = int(self.rng.integers(1 << 30))
                r = Run(self.sh, gen, tree, np.random.default_rng(seed), kin=kin, frames=frames)
                if setup:
                    setup(r)
                if accept is None or accept(r):
                    break
            r.go(sensors(r) if callable(sensors) else sensors, **kw)
        except Unknown as e:
            if r is not None and r.m.raised:
                return self.raised(r, gen, name)
            self.R.undecided("scenario", GEN[gen][1], name, "%s" % e)
            return None
        self.funcs |= r.m.used
        if r.m.raised:
            return self.raised(r, gen, name)
        self.unknown(r, GEN[gen][1], name)
        self.R.anchor("equations evaluated", len(r.m.equations))
        self.R.anchor("scenarios", 1)
        return r

    def raised(self, r, gen, name):
        f, l = r.m.raised[0]
        self.R.bad("scenario", GEN[gen][1], "the model is accepted: " + name, "an exception is raised", self.file(f), l)
        return None

    def unknown(self, r, fn, name):
        seen = {}
        for e in r.m.equations:
            n = getattr(e.lhs, "name", e.lhs)
            if isinstance(n, str):
                if n in seen:
                    self.R.bad("scenario", fn, "every variable is defined once: " + name, "%s is defined in line %d and again" % (n, seen[n]), self.file(e.where), e.line)
                    break
                seen[n] = e.line
        self.terms(r, fn, name)

    def terms(self, r, fn, name):
        """terms without a value: a missing attribute that nothing unknown precedes is an exception of the program"""
        if r.m.unknown:
            what, why = next((x for x in r.m.unknown if not x[1].startswith("declared variable")), r.m.unknown[0])
            if getattr(why, "missing", False):
                self.R.bad("scenario", fn, "what is read has been stored: " + name, "%s does not exist when %s is derived" % (why, what))
            else:
                self.R.undecided("terms", fn, name, "%d terms not evaluated, first: %s" % (len(r.m.unknown), r.m.unknown[0]))

    def where(self, r, obj, attr):
        w = [x for l in r.writer(obj, attr) for x in (l if isinstance(l, list) else [l])]
        return (self.file(w[-1][0]), w[-1][1]) if w else ("", 0)

    def finish(self, text, min_ok):
        for f in sorted(self.funcs):
            self.R.note("summarised: " + f)
        return self.R.finish(text, ASSUME, min_ok=min_ok)


# ---------------------------------------------------------------- kinematics
QUANT = (("I_r", "r"), ("I_R", "R"), ("I_v", "v"), ("I_a", "a"), ("I_om", "om"), ("I_al", "al"), ("K_om", "Kom"), ("K_al", "Kal"), ("I_l", "l"), ("I_ldot", "ldot"))
WORDS = dict(r="position", R="orientation", v="velocity", a="acceleration", om="angular velocity", al="angular acceleration", Kom="angular velocity (own frame)", Kal="angular acceleration (own frame)", l="position of the centre of gravity", ldot="velocity of the centre of gravity")


def motions(C, r, gen, case0, rule="kinematics"):
    """every kinematic quantity of the bodies and frames of a scenario against the reference motion"""
    W = r.W
    objs = [("body", b, B) for b, B in zip(W.bodies, r.bs)] + [("frame", f, f.twin) for f in W.frames]
    for kind in ("body", "frame"):
        for attr, k in QUANT:
            if kind == "frame" and gen == "ordern" and k in ("Kom", "Kal"):
                continue
            n, bad, unk = 0, None, 0
            for kd, b, B in objs:
                if kd != kind or k not in W.ref[b] or attr not in B.a or B.a[attr] is None:
                    continue
                v = r.val(B.a[attr])
                if v is None:
                    unk += 1
                    continue
                n += 1
                ref = W.ref[b][k].value()
                if not close(v, ref) and bad is None:
                    bad = (b, B, v, ref)
            what = "%s of a %s: %s" % (WORDS[k], kind, case0)
            if bad:
                f, l = C.where(r, bad[1], attr)
                C.R.bad(rule, GEN[gen][1], what, "%s.%s is %s, the motion gives %s" % (bad[1].a.get("name"), attr, fmt(bad[2]), fmt(bad[3])), f, l)
            elif n:
                f, l = C.where(r, objs[0][2] if kind == "body" else objs[-1][2], attr)
                C.R.ok(rule, GEN[gen][1], what, "%d objects" % n, f, l)
            elif unk:
                C.R.undecided(rule, GEN[gen][1], what, "no value")


def k01(prop, tier):
    C = Check(prop, tier, "every position, orientation, velocity and acceleration a generator derives for a body or frame == the one of the reference motion")
    for gen in GEN:
        for kin in (False, True):
            for name, tree in trees(tier, C.rng):
                if kin and C.quick and name not in ("branches", "single translation"):
                    continue
                r = C.run(gen, name, tree, kin=kin)
                if r is None:
                    continue
                case0 = name + (", kinematics only" if kin else "")
                motions(C, r, gen, case0)
    return C.finish("The three generators are summarised function by function (terms over their inputs, loops as folds); the summaries are evaluated on random "
                    "mechanisms and every kinematic quantity of every body and frame is compared with exact differentiation of the reference motion.", 100)


def fmt(v):
    return np.array2string(np.asarray(v).ravel(), precision=5)


# ---------------------------------------------------------------- equations of motion
def order(W, l):
    """indices of the coordinates in a list"""
    if not isinstance(l, (list, tuple)):
        l = [l]
    for kind, ref in (("q", W.q), ("qd", W.qd), ("qdd", W.qdd)):
        o = []
        for x in l:
            k = [i for i, y in enumerate(ref) if isinstance(x, M) and x.a is y.a]
            if len(k) != 1:
                break
            o.append(k[0])
        if len(o) == len(l) and o:
            return kind, o
    return None, None


def delivered(C, r, gen, case, rule="motion"):
    """the differential equations handed to the graph, as (order of the coordinates, accelerations); reports what is wrong with them"""
    W = r.W
    vec = {}
    fn = GEN[gen][1]
    for e in r.m.equations:
        kind, o = order(W, e.lhs)
        if kind and isinstance(e.rhs, Var):
            vec.setdefault(e.rhs.name, (kind, o, e))
    ders = [e for e in r.m.equations if isinstance(e.lhs, tuple) and len(e.lhs) == 2 and e.lhs[0] == "der" and isinstance(e.lhs[1], Var)]
    acc = None
    seen = set()
    for e in ders:
        v = vec.get(e.lhs[1].name)
        if v is None:
            continue
        f, l = C.file(e.where), e.line
        seen.add(v[0])
        if v[0] == "q":
            w = vec.get(e.rhs.name) if isinstance(e.rhs, Var) else None
            if w is not None:
                if w[0] == "qd" and w[1] == v[1]:
                    C.R.ok(rule, fn, "the derivative of the positions is the velocities: " + case, "", f, l)
                else:
                    C.R.bad(rule, fn, "the derivative of the positions is the velocities: " + case, "der(%s) is %s %s, in the order %s" % (e.lhs[1].name, w[0], w[1], v[1]), f, l)
            else:
                C.R.undecided(rule, fn, "the derivative of the positions: " + case, "right side %s" % (e.rhs,), f, l)
        elif v[0] == "qd":
            x = r.val(e.rhs)
            if x is None and isinstance(e.rhs, Var) and e.rhs.name in vec and vec[e.rhs.name][0] == "qdd" and r.kin:
                acc = ("input", vec[e.rhs.name][1], v[1], e)
            elif x is None:
                C.R.undecided(rule, fn, "accelerations: " + case, "right side %s" % (e.rhs,), f, l)
            else:
                acc = (x, v[1], e)
    for k, words in (("q", "positions"), ("qd", "velocities")):
        if k not in seen and not r.m.unknown:
            C.R.bad(rule, fn, "a differential equation of the %s: %s" % (words, case), "none is added to the graph")
    return acc


def blame(C, r, gen, e):
    """the construct a wrong acceleration comes from: the definition of the value the differential equation refers to"""
    if isinstance(e.rhs, Var):
        for x in r.m.equations:
            if isinstance(x.lhs, Var) and x.lhs.name == e.rhs.name:
                return C.file(x.where), x.line
    return C.file(e.where), e.line


def accelerations(C, r, gen, case, rule="motion"):
    acc = delivered(C, r, gen, case, rule)
    fn = GEN[gen][1]
    if acc is None:
        return
    x, o, e = acc
    f, l = blame(C, r, gen, e)
    ref = np.array([r.sol[i] for i in o]).reshape(-1, 1)
    if not all(np.isfinite(x).ravel()):
        C.R.bad(rule, fn, "accelerations: " + case, "not finite", f, l)
    elif close(x, ref, 1e-6):
        C.R.ok(rule, fn, "accelerations: " + case, "", f, l)
    else:
        C.R.bad(rule, fn, "accelerations: " + case, "the equations give %s, Newton and Euler give %s" % (fmt(x), fmt(ref)), f, l)


def d01(prop, tier):
    C = Check(prop, tier, "the accelerations the delivered equations define == the solution of the Newton-Euler equations of the mechanism")
    for gen in GEN:
        for name, tree in trees(tier, C.rng):
            r = C.run(gen, name, tree)
            if r is not None:
                accelerations(C, r, gen, name)
        for name, tree in list(trees(tier, C.rng))[3:5]:
            r = C.run(gen, name, tree, kin=True)
            if r is None:
                continue
            acc = delivered(C, r, gen, name + ", kinematics only", "kinematics only")
            if acc is not None and isinstance(acc[0], str):
                C.R.ob("kinematics only", GEN[gen][1], "the accelerations are the inputs: " + name, "ok" if acc[1] == acc[2] else "violation", "order %s of the inputs, %s of the velocities" % (acc[1], acc[2]), C.file(acc[3].where), acc[3].line)
    return C.finish("The equations a generator adds to the graph are evaluated, as terms of its source, on random trees of bodies; the accelerations they define are compared "
                    "with the solution of the Newton-Euler equations of the reference mechanism.", 20)


# ---------------------------------------------------------------- loads
def loadcases(r):
    """(name, [load specs])"""
    x = r.extra
    W = r.W
    n = len(W.bodies) - 1
    a, b, c, w = x[n][0], x[1][2], x[min(2, n)][0], x[0][0]
    out = []
    for k in ("CmpForce", "CmpTorque"):
        out += [(k + " between bodies", [(k, a, b, None)]), (k + " from a body to the world", [(k, a, w, None)]), (k + " from the world to a body, in the frame of a body", [(k, w, a, c)]),
                (k + " between bodies, in the world", [(k, a, b, w)]), (k + " between bodies, in a third frame", [(k, b, a, c)]), (k + " between frames of one body", [(k, a, x[n][1], None)])]
    out += [("PtPForce between bodies", [("PtPForce", a, b, None)]), ("PtPForce to the world", [("PtPForce", a, w, None)]), ("PtPForce from the world", [("PtPForce", w, b, None)])]
    for i in range(n):
        out.append(("JointLoad on joint %d (%s)" % (i, "rotation" if W.axis[i][0] == "r" else "translation"), [("JointLoad", i)]))
    out.append(("several loads", [("CmpForce", a, b, None), ("CmpTorque", a, w, c), ("PtPForce", c, w, None), ("JointLoad", 0), ("CmpForce", x[n][1], w, w)]))
    return out


def d02(prop, tier):
    C = Check(prop, tier, "with loads: accelerations of the delivered equations == Newton-Euler with the wrenches the loads exert")
    names = ["single rotation", "single translation", "branches"] if C.quick else list(TREES)
    for gen in GEN:
        for name in names:
            tree = TREES[name]
            probe = Run(C.sh, gen, tree, np.random.default_rng(0), frames=3)
            cases = loadcases(probe)
            for k, (ln, _) in enumerate(cases):
                if gen == "ordern" and C.quick and len(tree) > 1 and "one body" in ln:
                    continue
                r = C.run(gen, "%s, %s" % (ln, name), tree, setup=lambda r, k=k: r.plan(loadcases(r)[k][1]), frames=3)
                if r is not None:
                    accelerations(C, r, gen, "%s, %s" % (ln, name), "load")
    return C.finish("Loads of every class are attached to frames of random mechanisms; the wrench on each body follows from the definition of the load, and the accelerations "
                    "the delivered equations define are compared with Newton-Euler.", 40)


# ---------------------------------------------------------------- sensors
SENS = PR + "sensors."


def constraintcases(r):
    """(name, [(parent, child, locked translations, locked rotations)], number of equations)"""
    x = r.extra
    n = len(r.W.bodies) - 1
    a, b, w = x[n][0], x[1][1], x[0][0]
    T, R0 = (1, 1, 1), (0, 0, 0)
    out = []
    if n >= 3:
        out += [("point fixed in the world", [(w, a, T, R0)], 3), ("world fixed to a point of a body", [(a, w, T, R0)], 3), ("point in a plane and on a line", [(w, a, (1, 0, 1), R0)], 2), ("rotation locked", [(w, a, R0, (1, 0, 1))], 2),
                ("translation and rotation", [(w, a, (0, 1, 0), (0, 0, 1))], 2), ("two constraints on one frame", [(w, a, (1, 0, 0), R0), (x[0][1], a, (0, 1, 0), R0)], 2)]
    if n >= 4:
        out += [("two bodies", [(b, a, (1, 1, 0), R0)], 2), ("two bodies exchanged", [(a, b, (1, 0, 1), R0)], 2), ("rotation between bodies", [(a, b, (1, 0, 0), (0, 1, 0))], 2),
                ("two constraints", [(w, a, (1, 0, 0), R0), (b, x[3][0], (0, 1, 0), R0)], 2), ("point and loads", [(w, a, T, R0)], 3)]
    return out


CTREES = {"chain": [(0, "r"), (1, "r"), (2, "r")], "branches": [(0, "r"), (1, "t"), (1, "r"), (3, "r")], "chain of five": [(0, "t"), (1, "r"), (2, "r"), (3, "r"), (4, "r")]}


def d04(prop, tier):
    C = Check(prop, tier, "with constraints: accelerations == Newton-Euler with reactions along the locked axes that make the relative accelerations along them zero")
    gen = "ordern"
    for name, tree in CTREES.items():
        if C.quick and name == "chain":
            continue
        probe = Run(C.sh, gen, tree, np.random.default_rng(0), frames=3)
        for k, (cn, _, _) in enumerate(constraintcases(probe)):
            def setup(r, k=k, cn=cn):
                r.locks = constraintcases(r)[k][1]
                if "loads" in cn:
                    r.plan(loadcases(r)[-1][1])
            r = C.run(gen, "%s, %s" % (cn, name), tree, setup=setup, sensors=lambda r: [s for _, s, _ in sensorcases(r)] if k in (0, 6) else [], frames=3, accept=lambda r: np.linalg.svd(r.rows()[0])[1][-1] > 0.05)
            if r is None:
                continue
            accelerations(C, r, gen, "%s, %s" % (cn, name), "constraint")
            motions(C, r, gen, "%s, %s" % (cn, name), "motion with constraints")
            if k in (0, 6):
                for j, (sn, spec, ref) in enumerate(sensorcases(r)):
                    decide_sensor(C, r, gen, "%s, %s, %s" % (sn, cn, name), j, ref, spec)
    return C.finish("Constraints between frames of bodies and the world are attached to random mechanisms; the accelerations the equations of the order-n generator define are compared with "
                    "the Newton-Euler equations extended by the constraints on acceleration level.", 20)


def sensorcases(r):
    """(name, sensor spec, reference)"""
    x, W = r.extra, r.W
    n = len(W.bodies) - 1
    a, b, c, w = x[n][0], x[1][0], x[min(2, n)][0], x[0][0]
    a2, w2 = x[n][1], x[0][1]
    R = lambda f, k: W.ref[f][k].value()
    out = []
    pairs = [("of a body in the world", w, a), ("of the world seen from a body", a, w), ("between bodies", b, a), ("within a body", a, a2), ("within the world", w, w2)]
    for mod, cls, k in (("position_sensor", "PositionSensor", "r"), ("velocity_sensor", "VelocitySensor", "v"), ("acceleration_sensor", "AccelerationSensor", "a"), ("ang_velocity_sensor", "AngVelocitySensor", "om"),
                        ("ang_acceleration_sensor", "AngAccelerationSensor", "al")):
        for nm, p, ch in pairs:
            for ref in (None, c, w):
                rr = ref if ref is not None else p
                out.append((cls + " " + nm + ("" if ref is None else ", in a third frame" if ref is c else ", in the world"), (SENS + mod, cls, (p, ch, "sym", ref), {}), R(rr, "R").T @ (R(ch, k) - R(p, k))))
    for nm, p, ch in pairs:
        out.append(("OrientationSensor " + nm, (SENS + "orientation_sensor", "OrientationSensor", (p, ch, "sym"), {}), R(p, "R").T @ R(ch, "R")))
        d, v = R(ch, "r") - R(p, "r"), R(ch, "v") - R(p, "v")
        if np.linalg.norm(d) > 1e-9:
            out.append(("DistanceSensor " + nm, (SENS + "distance_sensor", "DistanceSensor", (p, ch, "sym"), {}), np.array([[np.linalg.norm(d)], [(d.T @ v)[0, 0] / np.linalg.norm(d)]])))
    for i in range(n):
        out.append(("JointSensor", (SENS + "joint_sensor", "JointSensor", (lambda r, i=i: r.js[i], "sym"), {}), np.array([[W.q[i].value()[0, 0]], [W.qd[i].value()[0, 0]]])))
        B = W.bodies[i + 1]
        m, I = B.mass.value()[0, 0], B.inertia.value()
        E = 0.5 * m * (R(B, "ldot").T @ R(B, "ldot")) + 0.5 * R(B, "Kom").T @ I @ R(B, "Kom") - m * W.g.value().T @ R(B, "l")
        out.append(("EnergySensor", (SENS + "energy_sensor", "EnergySensor", (lambda r, i=i: r.bs[i + 1], "sym", lambda r: r.W.g), {}), E))
    return out


def k03(prop, tier):
    C = Check(prop, tier, "the value a sensor's equation defines == the quantity of the reference motion the sensor stands for")
    names = ["single rotation", "branches"] if C.quick else list(TREES)
    for gen in GEN:
        for kin in (False, True):
            for name in names:
                if kin and name == "single rotation":
                    continue
                tree = TREES[name]
                case = name + (", kinematics only" if kin else "")

                def sens(r):
                    return [s for _, s, _ in sensorcases(r)]
                r = C.run(gen, case, tree, sensors=sens, frames=2, kin=kin)
                if r is None:
                    continue
                cases = sensorcases(r)
                for k, (nm, spec, ref) in enumerate(cases):
                    if kin and ("Acceleration" in nm):
                        continue
                    decide_sensor(C, r, gen, "%s, %s" % (nm, case), k, ref, spec, 3 if "Position" in nm else None)
    return C.finish("Sensor objects between frames of bodies and of the world are attached to random mechanisms; the value of the equation each sensor adds is compared with the reference motion.", 100)


def decide_sensor(C, r, gen, case, k, ref, spec, _=None, rule="sensor"):
    cls = spec[1]
    eqs = [e for e in r.m.equations if isinstance(e.lhs, Var) and e.lhs.name == "s%d" % k]
    fn = "%s (%s)" % (cls, GEN[gen][1])
    c = C.sh.cls(spec[0], cls)
    m = C.sh.P.method(c, "calc")
    f0, l0 = os.path.join(REPO, spec[0].replace(".", "/") + ".py"), m.node.lineno if m else 0
    if not eqs:
        if r.m.unknown or m is None:
            C.R.undecided(rule, fn, case, "no equation evaluated")
        else:
            C.R.bad(rule, fn, case, "the sensor adds no equation", f0, l0)
        return
    v = r.val(eqs[-1].rhs)
    if v is None:
        C.R.undecided(rule, fn, case, str(eqs[-1].rhs)[:100], f0, l0)
        return
    if v.size == ref.size and close(v.reshape(ref.shape), ref, 1e-6):
        C.R.ok(rule, fn, case, "", f0, l0)
    else:
        C.R.bad(rule, fn, case, "the sensor is %s, the motion gives %s" % (fmt(v), fmt(ref)), f0, l0)


# ---------------------------------------------------------------- reactions
def d03(prop, tier):
    C = Check(prop, tier, "ConstraintForce and ConstraintTorque of a joint == the force and torque Newton-Euler gives for the part of the tree behind the joint")
    names = ["single rotation", "single translation", "branches"] if C.quick else list(TREES)
    for name in names:
        tree = TREES[name]
        n = len(tree)
        for ln in (None, "several loads", "CmpForce from a body to the world", "CmpTorque from the world to a body, in the frame of a body", "PtPForce between bodies"):
            specs = [(SENS + "constraint_%s_sensor" % k.lower(), "Constraint%sSensor" % k, (lambda r, i=i: r.js[i], "sym"), {}) for i in range(n) for k in ("Force", "Torque")]
            setup = None if ln is None else lambda r: r.plan(dict(loadcases(r))[ln])
            r = C.run("recursive", "%s, %s" % (ln or "no loads", name), tree, setup=setup, sensors=specs, frames=3)
            if r is None:
                continue
            W = r.W
            wr = r.wrench()
            F, L = reactions(W, wr)
            for i in range(n):
                for j, x in enumerate((F[i], L[i])):
                    decide_sensor(C, r, "recursive", "joint %d, %s, %s" % (i, ln or "no loads", name), 2 * i + j, x, specs[2 * i + j], rule="reaction")
    return C.finish("The joint force and torque the recursive generator derives are compared with the balance of momentum of the part of the tree behind the joint.", 30)


def reactions(W, wr):
    n = W.n
    g = W.g.value()
    F, L = [np.zeros((3, 1)) for _ in range(n)], [np.zeros((3, 1)) for _ in range(n)]
    for i, b in enumerate(W.bodies[1:]):
        r = W.ref[b]
        m = b.mass.value()[0, 0]
        Rv = r["R"].value()
        J = Rv @ b.inertia.value() @ Rv.T
        om, al = r["om"].value(), r["al"].value()
        f = m * (r["lddot"].value() - g)
        t = J @ al + np.cross(om[:, 0], (J @ om)[:, 0]).reshape(3, 1)
        if b in wr:
            f = f - wr[b][0]
            t = t - wr[b][1]
        k = i
        while k >= 0:
            arm = r["l"].value() - W.ref[W.bodies[k + 1]]["r"].value()
            F[k] = F[k] + f
            L[k] = L[k] + t + np.cross(arm[:, 0], f[:, 0]).reshape(3, 1)
            k = W.tree[k][0] - 1
    return F, L


# ---------------------------------------------------------------- loops
def loopcases(C, more=5):
    import mbsloops
    for k in range(1 if C.quick else more):
        for c in mbsloops.cases(np.random.default_rng(int(C.rng.integers(1 << 30)))):
            yield (c[0] if k == 0 else "%s, geometry %d" % (c[0], k + 1),) + tuple(c[1:])


def solved(C, case, tree, ends, loops, q, rule="loop"):
    import mbsloops
    fn = loops[0][0][1]
    r = None
    try:
        r = mbsloops.LoopRun(C.sh, C.rng, tree, ends, loops, q=q)
        out = r.solve()
    except Unknown as e:
        if r is not None and r.m.raised:
            f, l = r.m.raised[0]
            C.R.bad(rule, fn, "the mechanism is accepted: " + case, "an exception is raised", C.file(f), l)
        else:
            C.R.undecided(rule, fn, case, "%s" % e)
        return None, None
    C.funcs |= r.m.used
    if r.m.raised:
        f, l = r.m.raised[0]
        C.R.bad(rule, fn, "the mechanism is accepted: " + case, "an exception is raised", C.file(f), l)
        return None, None
    C.unknown(r, fn, case)
    C.R.anchor("loops evaluated", len(loops))
    return r, out


def loopwhere(C, cls, name="calc"):
    c = C.sh.cls(*cls)
    m = C.sh.P.method(c, name)
    return os.path.join(REPO, cls[0].replace(".", "/") + ".py"), m.node.lineno if m else 0


def l01(prop, tier):
    C = Check(prop, tier, "a loop's dependent positions close the mechanism, and its velocity and acceleration terms are their derivatives")
    for case, tree, ends, loops, q in loopcases(C):
        r, out = solved(C, case, tree, ends, loops, q)
        if r is None:
            continue
        W = r.W
        seen = 0
        for k, (cls, args) in enumerate(loops):
            f, l = loopwhere(C, cls)
            fn = cls[1]
            idx = {n: r.attr(n, k) for n in ("u", "ud", "udd", "v", "vd", "vdd")}
            names = ("q", "qd", "qdd")
            for a in "uv":
                base = [i[1] if i else None for i in idx[a]]
                good = all([(i[0], i[1]) if i else None for i in idx[a + s]] == [(names[d], b) for b in base] for d, s in enumerate(("", "d", "dd")))
                fi, li = loopwhere(C, cls, "__init__")
                C.R.ob("coordinates", fn, "%s coordinates, velocities, accelerations belong together: %s" % ("independent" if a == "u" else "dependent", case),
                       "ok" if good else "violation", "" if good else "%s" % ({a + s: idx[a + s] for s in ("", "d", "dd")},), fi, li)
            u, dep = [i[1] for i in idx["u"]], [i[1] for i in idx["v"]]
            v, B, b = out[k]
            B, b = r.num(B).value(), r.num(b).value().ravel()
            if None in idx["u"]:
                continue
            col = lambda s, ix: np.array([s[i].value()[0, 0] for i in ix])
            ud, udd, vd, vdd = col(W.qd, u), col(W.qdd, u), col(W.qd, dep), col(W.qdd, dep)
            if not np.all(np.isfinite(vd)) or not np.all(np.isfinite(vdd)):
                C.R.bad("velocity", fn, case, "the dependent positions are not finite", f, l)
                continue
            if B.shape != (len(dep), len(u)):
                C.R.bad("velocity", fn, case, "Bvu is %s by %s for %d dependent and %d independent coordinates" % (B.shape + (len(dep), len(u))), f, l)
                continue
            good = close(B @ ud, vd, 1e-6)
            C.R.ob("velocity", fn, case, "ok" if good else "violation", "" if good else "Bvu*ud is %s, the derivative of the dependent positions is %s" % (fmt(B @ ud), fmt(vd)), f, l)
            good = close(B @ udd + b, vdd, 1e-6)
            C.R.ob("acceleration", fn, case, "ok" if good else "violation", "" if good else "Bvu*udd + b' is %s, the second derivative of the dependent positions is %s" % (fmt(B @ udd + b), fmt(vdd)), f, l)
            pair = [a[1] for a in args if isinstance(a, tuple) and a[0] == "F"]
            if len(pair) == 2:
                gap = (W.ref[r.ends[pair[0]]]["r"] - W.ref[r.ends[pair[1]]]["r"]).a
                size = np.abs(W.ref[r.ends[pair[0]]]["r"].a).max()
                good = bool(np.all(np.abs(gap) < 1e-7 * (1 + size)))
                C.R.ob("closure", fn, case, "ok" if good else "violation", "" if good else "the ends of the loop are %s apart" % fmt(np.abs(gap).max(axis=-1)), f, l)
            elif cls[1] == "Transmission":
                i, j, ratio = args[0][1], args[1][1], args[2]
                good = close(W.q[j].value(), ratio * W.q[i].value())
                C.R.ob("closure", fn, case, "ok" if good else "violation", "" if good else "the coordinate is %s, ratio times the other one is %s" % (fmt(W.q[j].value()), fmt(ratio * W.q[i].value())), f, l)
    return C.finish("Every loop class is put into mechanisms of its kind (all axes, postures, orders of the frames); its dependent positions are taken as power series in the "
                    "independent coordinates, from which closure, Bvu and b' follow by exact differentiation.", 100)


def looprun(C, gen, r, case, rule, sensors=None, frames=1, kin=False):
    import mbsloops
    fn = GEN[gen][1]
    x = None
    try:
        x = mbsloops.LoopDyn(C.sh, gen, r, np.random.default_rng(5), frames=frames, kin=kin)
        x.go(sensors(x) if sensors else ())
    except Unknown as e:
        if x is not None and x.m.raised:
            f, l = x.m.raised[0]
            C.R.bad(rule, fn, "the mechanism is accepted: " + case, "an exception is raised", C.file(f), l)
        else:
            C.R.undecided(rule, fn, case, "%s" % e)
        return None
    C.funcs |= x.m.used
    if x.m.raised:
        f, l = x.m.raised[0]
        C.R.bad(rule, fn, "the mechanism is accepted: " + case, "an exception is raised", C.file(f), l)
        return None
    C.unknown(x, fn, case)
    C.R.anchor("equations evaluated", len(x.m.equations))
    return x


def l03(prop, tier):
    C = Check(prop, tier, "with loops: every kinematic quantity and sensor == the one of the closed mechanism")
    seen = set()
    for case, tree, ends, loops, q in loopcases(C, 2):
        key = loops[0][0] if len(loops) == 1 else len(loops)
        if C.quick and key in seen:
            continue
        seen.add(key)
        r, out = solved(C, case, tree, ends, loops, q, "motion with loops")
        if r is None:
            continue
        for gen in ("explicit", "recursive", "ordern"):
            if gen == "ordern" and any(c[1] != "FourBar" for c, _ in loops):
                continue
            for kin in (False, True):
                def sens(r):
                    return [s for _, s, _ in sensorcases(r)]
                nm = case + (", kinematics only" if kin else "")
                x = looprun(C, gen, r, nm, "motion with loops", sens, 2, kin)
                if x is None:
                    continue
                motions(C, x, gen, nm, "motion with loops")
                dependents(C, x, r, gen, nm, acc=not kin)
                for k, (sn, spec, ref) in enumerate(sensorcases(x)):
                    if kin and "Acceleration" in sn:
                        continue
                    decide_sensor(C, x, gen, "%s, %s" % (sn, nm), k, ref, spec)
    return C.finish("Mechanisms with loops are evaluated through the generators; positions, velocities and accelerations of all bodies and frames, and sensors between them, are compared "
                    "with the closed reference motion.", 100)


def l02(prop, tier):
    import mbsloops
    C = Check(prop, tier, "with loops: the delivered equations == Newton-Euler of the mechanism with its dependent coordinates eliminated")
    seen = set()
    for case, tree, ends, loops, q in loopcases(C):
        key = loops[0][0] if len(loops) == 1 else case
        if C.quick and key in seen:
            continue
        seen.add(key)
        rule = "motion with loops"
        r, out = solved(C, case, tree, ends, loops, q, rule)
        if r is None:
            continue
        for gen in ("explicit", "recursive", "ordern"):
            if gen == "ordern" and any(c[1] != "FourBar" for c, _ in loops):
                continue
            x = looprun(C, gen, r, case, rule)
            if x is None:
                continue
            accelerations(C, x, gen, case, rule)
            dependents(C, x, r, gen, case)
    return C.finish("Mechanisms with one loop of every class and with several loops that feed each other, in every order, are evaluated through the generators; the accelerations "
                    "and the dependent coordinates the delivered equations define are compared with the reduced Newton-Euler equations.", 30)


def dependents(C, x, src, gen, case, rule="dependent coordinates", acc=True):
    """one equation for position, velocity and acceleration of every dependent joint, in an order that uses nothing undefined"""
    W, S = x.W, src.W
    fn = GEN[gen][1]
    if gen == "ordern" and acc:
        eqs = [(order(W, e.lhs), e) for e in x.m.equations]
        eqs = [(o, e) for (k, o), e in eqs if k == "qdd" and len(o) == W.n]
        what = "accelerations of all joints: " + case
        v = x.val(eqs[0][1].rhs) if len(eqs) == 1 else None
        if v is None:
            C.R.undecided(rule, fn, what, "%d equations" % len(eqs))
        else:
            good = close(v, np.array([x.sol[i] for i in eqs[0][0]]).reshape(-1, 1), 1e-6)
            C.R.ob(rule, fn, what, "ok" if good else "violation", "" if good else "the equation gives %s, closing the loops gives %s" % (fmt(v), fmt(x.sol)), C.file(eqs[0][1].where), eqs[0][1].line)
    for i in src.dep:
        for kind, lst, ref in (("position", W.q, S.q[i].value()), ("velocity", W.qd, S.qd[i].value()), ("acceleration", W.qdd, None)):
            if kind == "acceleration" and (gen == "ordern" or not acc):
                continue
            eqs = [e for e in x.m.equations if isinstance(e.lhs, M) and e.lhs.a is lst[i].a]
            what = "%s of joint %d: %s" % (kind, i, case)
            if len(eqs) != 1:
                if not x.m.unknown and not any(isinstance(e.lhs, Unknown) for e in x.m.equations):
                    C.R.bad(rule, fn, what, "%d equations define it" % len(eqs), C.file(eqs[0].where) if eqs else "", eqs[0].line if eqs else 0)
                continue
            v = x.val(eqs[0].rhs)
            if kind == "acceleration":
                # written in terms of the independent accelerations, which have the values of the reference motion here
                ref = S.qdd[i].value()
            if v is None:
                C.R.undecided(rule, fn, what, "right side %s" % (eqs[0].rhs,))
            elif close(v, ref, 1e-6):
                C.R.ok(rule, fn, what, "", C.file(eqs[0].where), eqs[0].line)
            else:
                C.R.bad(rule, fn, what, "the equation gives %s, closing the loops gives %s" % (fmt(v), fmt(ref)), C.file(eqs[0].where), eqs[0].line)
