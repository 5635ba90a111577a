"""Printed text of every node kind in every target language, against the node's value."""
import random
import re

import numpy as np

import engine as EN
import sem
import target as T
import values
from engine import Undecided, I
from sem import NS, V, Unknown, Skip
from strw import StrWorld, Refused

LANGS = {"PythonPrinter": T.PYTHON, "CPrinter": T.C, "FMUPrinter": T.C, "CSharpPrinter": T.CSHARP, "FortranPrinter": T.FORTRAN,
         "MatlabPrinter": T.MATLAB, "MatlabSymPrinter": T.MATLAB, "ModelicaPrinter": T.MODELICA}
# languages whose expressions are emitted component by component
SCALARWISE = ("c", "csharp")
P0 = ("param", "p0")
SKIPTAGS = ("Basic", "UnaryOp", "BinaryOp", "NaryOp", "Constant")


def engine_for(db):
    def op(f, e):
        n = f.split("::")[-1]
        return f.endswith("Printer::print") or n in ("error", "str", "fieldwidth") or sem.opaque(f, e) or "basic_string" in f and n in ("find", "find_first_of")
    return EN.Engine(db, op, sem.models())


class PW(StrWorld):
    def setup(self, tag, lang):
        self.init()
        self.lang = lang
        self.tag = tag
        self.scal = lang.name in SCALARWISE and tag not in ("Element", "Matrix", "Zero", "Skew", "Transpose", "Solve", "Inverse")
        if self.scal:
            self.scalars = True
        self.argtag = {}
        r = random.Random(sem.h("pw", self.n, tag))
        n = self.nargs(P0)
        sq = (3, 3)
        if tag == "Add":
            for i in range(n):
                self.argtag[("arg", P0, I(i))] = r.choice(["Neg", "Int", "Real", "Sin", "Sin"])
            if lang.name not in SCALARWISE and self.n % 2:
                for i in range(n):
                    self.argtag[("arg", P0, I(i))] = r.choice(["Neg", "Symbol", "Symbol"])
                    self.shape_pref[("arg", P0, I(i))] = sq if self.n % 4 == 1 else (3, 1)
                    self.shape_pref[("arg", ("arg", P0, I(i)), I(0))] = sq if self.n % 4 == 1 else (3, 1)
        elif tag == "Mul" and not self.scal:
            r0 = r.choice([1, 3, 3])
            k = r.choice([0, 0, 1, 2])
            for i in range(n):
                c = ("arg", P0, I(i))
                if i < k or self.n % 5 == 0:
                    self.shape_pref[c] = (1, 1)
                    continue
                r1 = 1 if i == n - 1 and r.random() < 0.6 else 3
                self.shape_pref[c] = (r0, r1)
                r0 = r1
        elif tag == "Solve":
            self.shape_pref[("arg", P0, I(0))] = sq
            self.shape_pref[("arg", P0, I(1))] = r.choice([sq, (3, 1)])
        elif tag == "Inverse":
            self.shape_pref[("arg", P0, I(0))] = sq
        elif tag == "Skew":
            self.shape_pref[("arg", P0, I(0))] = (3, 1)
        elif tag == "Outer" and not self.scal:
            self.shape_pref[("arg", P0, I(0))] = self.shape_pref[("arg", P0, I(1))] = (3, 1)
        elif tag == "Scalar":
            self.shape_pref[("arg", P0, I(0))] = (1, 1)
        elif tag == "Element":
            self.shape_pref[("arg", P0, I(0))] = r.choice([sq, (3, 1), (1, 3), (2, 3)])
        elif tag in ("Matrix", "Zero"):
            self.shape_pref[P0] = r.choice([sq, (3, 1), (1, 3), (2, 3), (3, 2), (1, 1)] if tag == "Zero" else [sq, (3, 1), (1, 3), (2, 3), (3, 2), (1, 1)])
        if tag == "Pow":
            self.expset = {("arg", P0, I(1))}
        return self

    def tags(self, t):
        a = getattr(self, "argtag", {}).get(self.canon(t))
        if a:
            return frozenset([self.E.tags["Type_" + a]])
        return StrWorld.tags(self, t)

    def by_tag(self, tn, t):
        if t == P0 and tn in ("Int", "Real"):
            r = random.Random(sem.h("lit", self.n))
            return sem.const(r.choice([0, 1, 2, -1, -7, 12, 1000000]) if tn == "Int" else
                             r.choice([0.5, -0.5, 3.0, -2.0, 1e-7, -2.5e20, 1.5e300, 0.1, 123456.789, -3e-9]))
        return StrWorld.by_tag(self, tn, t)

    def guard0(self, a):
        if a[0] == "truth" and a[1][0] == "call" and a[1][1] == "count":
            return self.n % 2 == 0 if self.lang else None
        if a[0] == "eq" and any(x[0] == "call" and x[1] == "count" for x in a[1:]):
            return None
        return StrWorld.guard0(self, a)


def as_target(v, lang):
    """array/number of the language for a value"""
    if v.shape == (1, 1):
        return v[0, 0]
    if lang.name in SCALARWISE and 1 in v.shape:
        return v.reshape(-1)
    return v


class Ev(T.Eval):
    def __init__(self, lang, env, denv):
        T.Eval.__init__(self, lang, env)
        self.denv = denv

    def e_call(self, e):
        f = T.dotted(e[1])
        if f == "der" and self.n == "modelica" and len(e[2][0]) == 1:
            return Ev(self.l, self.denv, {}).ev(e[2][0][0])
        return T.Eval.e_call(self, e)


def expect(w, tag):
    v = w.val(P0)
    if tag == "Der":
        return V(v.v)
    return v


def check_text(w, text, tag, lang):
    """None when the text means the node's value, else a description"""
    spec = expect(w, tag).v
    if tag == "Symbol":
        if not re.fullmatch(r"[A-Za-z_]\w*(->\w+)?|r\(\w+\)", text):
            return "not a name: %r" % text
        if lang.name in ("matlab", "fortran") and not text[0].isalpha():
            return "name must start with a letter: %r" % text
        return None
    env, denv = {}, {}
    for n, c in w.holes.items():
        x = w.val(c)
        env[n] = as_target(x.v, lang) if tag != "Scalar" else x.v
        denv[n] = as_target(x.d, lang)
        env["der_" + n] = denv[n]
        for i, row in enumerate(x.v):
            for j, y in enumerate(row):
                env["%s_%d_%d_" % (n, i, j)] = y
                if 1 in x.v.shape:
                    env["%s_%d_" % (n, max(i, j))] = y
        env[n + "_"] = env[n]
        env["der_" + n + "_"] = denv[n]
    if tag == "Unknown":
        return None
    try:
        ast = T.parse(text, lang)
    except T.Bad as b:
        return "%r is not an expression: %s" % (text[:160], b)
    try:
        got = Ev(lang, env, denv).ev(ast)
    except T.Bad as b:
        return "%r: %s" % (text[:160], b)
    got = np.asarray(got)
    want = np.asarray(as_target(spec, lang))
    if tag == "Zero" and lang.name == "csharp":
        want = np.asarray(0.0)       # fill value of the MathNet constructors
    if lang.name in SCALARWISE and tag == "Zero" and got.ndim and lang.name == "c":
        return None if np.all(got == 0) and (got.ndim == want.ndim) else "zero initialiser %r" % text
    if lang.name == "python" and spec.shape == (1, 1) and got.ndim:
        return "%r is a matrix, the expression a number" % text[:160]
    if got.size == 1 and want.size == 1:
        got, want = got.reshape(()), want.reshape(())
    if got.shape != want.shape:
        return "%r has shape %s, the expression %s" % (text[:160], got.shape, want.shape)
    if not np.allclose(got, want, rtol=1e-8, atol=1e-10):
        return "%r evaluates to %s, the expression to %s" % (text[:160], np.round(got, 4).tolist(), np.round(want, 4).tolist())
    return None


def admissible(w, tag, lang):
    """operand shapes for which the node exists"""
    sh = lambda i: w.val(("arg", P0, I(i))).shape
    if tag in ("Equal", "Greater", "Less", "If", "Atan2") and sh(0) != (1, 1):
        return False
    if tag == "If" and lang.name != "python" and False:
        return False
    if tag == "Sign" and sh(0) != (1, 1):
        return False
    if tag == "Sign" and np.any(np.abs(w.val(("arg", P0, I(0))).v) < 1e-6):
        return lang.name not in ("fortran", "matlab")
    if tag == "Atan2":
        y, x = w.val(("arg", P0, I(0))).v[0, 0].real, w.val(("arg", P0, I(1))).v[0, 0].real
        if y == 0 and x <= 0:
            return False
    if tag == "Add":
        if len(set(sh(i) for i in range(w.nargs(P0)))) > 1:
            return False
    if tag in ("Inverse", "Solve", "Skew", "Transpose", "Outer") and sh(0) == (1, 1):
        return False
    if tag == "Mul" and lang.name == "fortran" and scalar_inside(w):
        return False
    if tag == "Mul" and lang.name in ("python", "modelica", "matlab", "fortran") and inner_scalar(w):
        return False
    return True


def inner_scalar(w):
    """products that only associate one way (a partial product is a scalar)"""
    cur = None
    for i in range(w.nargs(P0)):
        s = w.val(("arg", P0, I(i))).shape
        if s == (1, 1):
            continue
        if cur is None:
            cur = s
        else:
            cur = (cur[0], s[1])
            if cur == (1, 1) and any(w.val(("arg", P0, I(j))).shape != (1, 1) for j in range(i + 1, w.nargs(P0))):
                return True
    return False


def scalar_inside(w):
    """simplified products have their scalar factors in front"""
    seen = False
    for i in range(w.nargs(P0)):
        if w.val(("arg", P0, I(i))).shape != (1, 1):
            seen = True
        elif seen:
            return True
    return False


def decide(db, pcls, tag, lang, tries=90, want=10, collect=None):
    """list of (case, status, detail, line, function)"""
    fn = db.one(NS + "Printer::print", 1)
    E = engine_for(db)
    tagv = E.tags["Type_" + tag]

    def pre(E, st, fr):
        st.types[P0] = frozenset([tagv])
    this = ("this", NS + pcls)
    try:
        outs = E.run(fn, this, None, pre)
    except (Undecided, RecursionError) as u:
        return [("", "undecided", str(u), fn["l"])], E
    res = []
    for o in outs:
        case = values.case_of(o)
        if o.kind == "throw":
            res.append((case, "refused", EN.show(o.value)[:80], o.line))
            continue
        if any(x[0] == "call" and x[1].endswith("::error") for x in o.effects):
            res.append((case, "refused", "error()", o.line))
            continue
        res.append(one(E, o, tag, lang, tries, want, collect) )
    return res, E


def one(E, o, tag, lang, tries, want, collect):
    case = values.case_of(o)
    guards = [(E.resolve(a, o.st) if a[0] not in ("loop", "caught") else a, b) for a, b in o.guards]
    ok, why = 0, None
    for n in range(tries):
        w = PW(E, o.st, n, guards).setup(tag, lang)
        try:
            un = w.consistent(guards)
        except Unknown as u:
            return (case, "undecided", str(u), o.line)
        except Refused:
            return (case, "refused", "error()", o.line)
        if un is None:
            continue
        try:
            if not admissible(w, tag, lang):
                continue
            expect(w, tag)
        except Skip:
            continue
        except Unknown as u:
            if tag not in ("Unknown",):
                return (case, "undecided", "spec " + str(u), o.line)
        try:
            text = w.text(o.value)
        except Refused:
            return (case, "refused", "error()", o.line)
        except Unknown as u:
            return (case, "undecided", str(u), o.line)
        except Skip as u:
            why = "undefined " + str(u)
            continue
        try:
            d = check_text(w, text, tag, lang)
        except T.Undef:
            continue
        except Unknown as u:
            return (case, "undecided", "spec " + str(u), o.line)
        except Skip:
            continue
        if d:
            if un:
                return (case, "undecided", "unresolved condition", o.line)
            return (case, "differ", d, o.line)
        if collect is not None:
            collect.append((tag, case, text, {k: w.val(c).shape for k, c in w.holes.items()}, w.val(P0).shape if tag != "Unknown" else None, dict(w.holes)))
        ok += 1
        if ok >= want:
            break
    if not ok:
        return (case, "vacuous", why or "no valuation", o.line)
    return (case, "equal", ok, o.line)
