"""Closed-form evaluation of extracted terms: the terms of pyx.py are read as functions of a mechanism whose numbers are
truncated series in the coordinates (random interpretation).  Nothing of the repository is executed; values come from the
terms and from the world the property's specification builds."""
import ast

import numpy as np

from jets import M, Order, skew as jskew, vstack, taylor
from pyx import Ext, ClassVal, Dead, Frame, FuncVal, Module, Ref, State, T, UNDEF, Unsupported, frees, mk, Fold, MapBody


class Unknown(Exception):
    """the term is not understood"""


def first_read(f):
    """what a function surely evaluates first"""
    b = [x for x in f.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return b[0].test if b and isinstance(b[0], (ast.If, ast.While)) else b[0] if b else f


class NoAttr(Unknown):
    """nobody gave the object this attribute"""

    def __init__(self, obj, attr):
        Unknown.__init__(self, "attribute %s of %r" % (attr, obj))
        self.obj, self.attr = obj, attr


class Missing(NoAttr):
    """an attribute nothing has stored"""


class OfNone(Unknown):
    """None has no attributes"""


class Text(str):
    """reason why something is unknown; keeps whether an attribute was missing"""
    missing = False


def text(e):
    t = Text(str(e))
    t.missing = isinstance(e, (Missing, OfNone))
    return t


class Obj:
    """object of the specification's world"""

    def __init__(self, cls=None, **attrs):
        self.__dict__["cls"] = cls
        self.__dict__["a"] = dict(attrs)
        self.__dict__["made"] = False

    def __getattr__(self, n):
        try:
            return self.__dict__["a"][n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self.__dict__["a"][n] = v

    def __repr__(self):
        return "<%s>" % self.a.get("name", "obj")


class Var(Obj):
    """variable the program declared"""


class Dict:
    """persistent dictionary with identity keys for objects"""

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def k(x):
        return (type(x).__name__, x) if isinstance(x, (str, int, float, bool, tuple, type(None))) else ("id", id(x), x)

    def set(self, k, v):
        d = dict(self.d)
        d[self.k(k)] = (k, v)
        return Dict(d)

    def get(self, k):
        if self.k(k) not in self.d:
            raise Unknown("key %r" % (k,))
        return self.d[self.k(k)][1]

    def has(self, k):
        return self.k(k) in self.d


class Scope:
    def __init__(self, id, elem, parent, phis=None):
        self.id, self.elem, self.parent, self.phis = id, elem, parent, phis or {}
        self.memo, self.conds, self.pins, self.refs = {}, {}, {}, {}
        self.ids = (parent.ids if parent else frozenset()) | frozenset([id])


def kind2(a, b, op):
    """kind of a result of two operands"""
    ka, kb = getattr(a, "kind", None), getattr(b, "kind", None)
    if ka == "expr" or kb == "expr":
        if op == "mul" and ("zeros" in (ka, kb)):
            return "zeros"
        return "expr"
    if op == "mul":
        if "zeros" in (ka, kb):
            return "zeros"
        if ka == "eye" and isinstance(b, M):
            return kb
        if kb == "eye" and isinstance(a, M):
            return ka
    else:
        if ka == "zeros":
            return kb
        if kb == "zeros":
            return ka
    if "matrix" in (ka, kb):
        return "matrix"
    return None


CONDS = ("cmp", "isinst", "truth", "in", "not", "and", "or", "hasattr")


class Evaluator:
    LIMIT = 2000000

    def __init__(self, ring, interp, root=None, hooks=None):
        self.R, self.I = ring, interp
        self.root = Scope(0, None, None)
        self.args = root or {}
        self.hooks = hooks or {}
        self.version = 0
        self.vars = {}
        self.n = 0
        self.refs = {}
        self.done = set()
        self.sides = None

    # ------------------------------------------------------------ values
    def num(self, x):
        if isinstance(x, M):
            return x
        if isinstance(x, bool):
            raise Unknown("boolean as a number")
        if isinstance(x, (int, float, np.floating)):
            return self.R.mat(float(x))
        if isinstance(x, (list, tuple)):
            return self.matrix(x)
        if isinstance(x, Var):
            raise Unknown("declared variable %s" % x.a.get("name"))
        if repr(x) in ("ext numpy.pi", "ext math.pi"):
            return self.R.mat(np.pi)
        if repr(x) in ("ext numpy.inf", "ext math.inf"):
            return self.R.mat(np.inf)
        raise Unknown("not a number: %r" % (x,))

    def matrix(self, x):
        """value of Matrix(x)"""
        if isinstance(x, M):
            return M(x.R, x.a, x.o, "matrix")
        if isinstance(x, tuple):
            if not x:
                return self.R.mat(0.0)
            if len(x) == 1:
                r = (x[0], 1)
            else:
                r = x
            if not all(isinstance(i, int) for i in r):
                raise Unknown("shape")
            return M(self.R, np.zeros(tuple(r) + (self.R.N,)), None, "matrix")
        if isinstance(x, list):
            rows = []
            for r in x:
                r = r if isinstance(r, list) else [r]
                rows.append([self.num(y) for y in r])
            if not rows:
                return M(self.R, np.zeros((0, 1, self.R.N)), None, "matrix")
            for r in rows:
                for y in r:
                    if y.shape != (1, 1):
                        raise Unknown("matrix of matrices")
            m = vstack(rows)
            m.kind = "matrix"
            return m
        raise Unknown("Matrix of %r" % (x,))

    def scope_of(self, t, env):
        if not t.free:
            return self.root
        s = env
        while s is not None and s.id not in t.free:
            s = s.parent
        if s is None:
            raise Unknown("unbound element")
        return s

    def ev(self, t, env):
        if isinstance(t, Ref):
            return self.ref(t, env)
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.ev(x, env) for x in t)
            if t is UNDEF:
                raise Unknown("undefined")
            return t
        s = self.scope_of(t, env)
        if t.op in CONDS:
            if t in s.conds:
                return s.conds[t]
            v = self.ev2(t, env)
            s.conds[t] = v
            return v
        if t in s.pins:
            v = s.pins[t]
            if isinstance(v, Exception):
                raise v
            return v
        c = s.memo.get(t)
        if c is not None and c[0] == self.version:
            if isinstance(c[1], Exception):
                raise c[1]
            return c[1]
        self.n += 1
        if self.n > self.LIMIT:
            raise Unknown("too much work")
        try:
            v = self.ev2(t, env)
        except (ValueError, ZeroDivisionError, np.linalg.LinAlgError, IndexError) as e:
            x = Unknown(str(e))
            s.memo[t] = (self.version, x)
            raise x
        s.memo[t] = (self.version, v)
        return v

    def ref(self, r, env):
        s = env
        while s is not None:
            if r in s.refs:
                return s.refs[r]
            s = s.parent
        raise Unknown("object %r" % (r,))

    def ev2(self, t, env):
        m = getattr(self, "o_" + t.op, None)
        if m is None:
            raise Unknown("operation " + t.op)
        return m(t, env)

    # ------------------------------------------------------------ leaves
    def o_arg(self, t, env):
        if t.args[0] not in self.args:
            raise Unknown("argument " + str(t.args[0]))
        return self.args[t.args[0]]

    def o_modobj(self, t, env):
        return self.machine.module(t.args[0])

    def o_attr(self, t, env):
        b = self.ev(t.args[0], env)
        return self.attr(b, t.args[1])

    def attr(self, b, name):
        if isinstance(b, Obj):
            if name in b.a:
                return b.a[name]
            if name == "__class__":
                return b.cls
            if name == "__dict__":
                return list(b.a)
            if isinstance(b.cls, ClassVal):
                r = self.I.P.classattr(b.cls, name)
                if r:
                    return self.ev(self.I.const_expr(r[0].mod, r[1].value), self.root)
                if name[:2] != "__" and b.made and self.I.P.method(b.cls, name) is None and self.I.P.method(b.cls, "__getattr__"):
                    g = self.I.P.method(b.cls, "__getattr__").node
                    me = g.args.args[0].arg
                    if b in self.machine.asking or any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr[:2] != "__" and x.attr not in b.a for x in ast.walk(first_read(g))):
                        raise Missing(b, name)
                    self.machine.asking.append(b)
                    try:
                        n = len(self.machine.raised)
                        try:
                            v = self.machine.method(b, "__getattr__", name)
                        except Unknown:
                            if len(self.machine.raised) <= n:
                                raise
                        if len(self.machine.raised) > n:
                            del self.machine.raised[n:]
                            raise Missing(b, name)
                        return v
                    finally:
                        self.machine.asking.pop()
                if b.made and self.I.P.method(b.cls, name) is None and name not in self.I.P.tried():
                    raise Missing(b, name)
            raise NoAttr(b, name)
        if isinstance(b, ClassVal) and name == "__name__":
            return b.name
        if b is None:
            raise OfNone("attribute %s of None" % name)
        raise Unknown("attribute %s of %s" % (name, type(b).__name__))

    def o_elem(self, t, env):
        s = env
        while s is not None and s.id != t.args[0]:
            s = s.parent
        if s is None:
            raise Unknown("unbound element")
        x = s.elem
        for i in t.args[2] if len(t.args) > 2 else ():
            x = x[i]
        return x

    def o_phi(self, t, env):
        s = env
        while s is not None and s.id != t.args[0]:
            s = s.parent
        if s is None or t.args[1:] not in s.phis:
            raise Unknown("loop state")
        v = s.phis[t.args[1:]]
        if v is UNDEF:
            raise Unknown("undefined loop state")
        if isinstance(v, Unknown):
            raise v
        return v

    def o_obj(self, t, env):
        return self.ref(t.args[0], env)

    def o_eqn(self, t, env):
        v = self.ev(t.args[1], env)
        if isinstance(v, list):
            v = self.matrix(v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = self.num(v)
        if isinstance(v, M):
            return M(v.R, v.a, v.o, "expr")
        return v

    def o_newvar(self, t, env):
        n = self.ev(t.args[0], env)
        k = (n, t.args[1:])
        if k not in self.vars:
            self.vars[k] = Var(None, name=n)
        v = self.vars[k]
        if "newvar" in self.hooks:
            return self.hooks["newvar"](v)
        return v

    def o_ite(self, t, env):
        try:
            c = self.ev(t.args[0], env)
        except Unknown:
            # both ways agree?
            a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
            if same(a, b):
                return a
            raise
        return self.ev(t.args[1] if c else t.args[2], env)

    # ------------------------------------------------------------ conditions
    def o_not(self, t, env):
        return not self.ev(t.args[0], env)

    def o_and(self, t, env):
        for x in t.args:
            if not self.ev(x, env):
                return False
        return True

    def o_or(self, t, env):
        for x in t.args:
            if self.ev(x, env):
                return True
        return False

    def o_truth(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, tuple, str, bool, int, float, type(None))):
            return bool(v)
        if isinstance(v, Dict):
            return bool(v.d)
        if isinstance(v, (Obj, ClassVal, FuncVal)):
            return True
        raise Unknown("truth of %r" % (v,))

    def o_hasattr(self, t, env):
        b = self.ev(t.args[0], env)
        if isinstance(b, Obj):
            n = t.args[1]
            if n in b.a or isinstance(b.cls, ClassVal) and (self.I.P.method(b.cls, n) is not None or bool(self.I.P.classattr(b.cls, n))):
                return True
            if isinstance(b.cls, ClassVal) and self.I.P.method(b.cls, "__getattr__"):
                try:
                    self.attr(b, n)
                except Missing:
                    return False
                return True
            return False
        raise Unknown("hasattr")

    def o_isinst(self, t, env):
        v = self.ev(t.args[0], env)
        cs = tuple(self.ev(c, env) if isinstance(c, T) else c for c in t.args[1])
        if isinstance(v, Obj) and not isinstance(v, Var):
            if v.cls is None:
                raise Unknown("class")
            m = self.I.P.mro(v.cls)
            return any(c in m for c in cs if isinstance(c, ClassVal))
        paths = [c.path for c in cs if isinstance(c, Ext)]
        last = [p.rsplit(".", 1)[-1].lstrip("C") for p in paths]
        if isinstance(v, bool):
            return any(p in ("builtins.bool", "builtins.int") for p in paths)
        if isinstance(v, int):
            return "builtins.int" in paths
        if isinstance(v, float):
            return "builtins.float" in paths
        if isinstance(v, str):
            return "builtins.str" in paths
        if isinstance(v, list):
            return "builtins.list" in paths
        if isinstance(v, tuple):
            return "builtins.tuple" in paths
        if v is None:
            return "builtins.NoneType" in paths
        if isinstance(v, Dict):
            return "builtins.dict" in paths
        if isinstance(v, (M, Var)):
            if "Basic" in last:
                return True
            k = "expr" if isinstance(v, Var) else v.kind
            if k is None:
                if not any(x in ("Matrix", "Zeros", "zeros", "Eye", "eye", "Symbol", "Variable", "Expression") for x in last):
                    return False
                if getattr(v, "elem", False) and not any(x in ("Symbol", "Variable", "Expression") for x in last):
                    return False        # an element of a matrix is no matrix
                raise Unknown("kind of a value")
            names = {"matrix": ("Matrix",), "zeros": ("Zeros", "zeros"), "eye": ("Eye", "eye"), "expr": ("Symbol", "Variable", "Expression")}[k]
            return any(x in names for x in last)
        raise Unknown("isinstance of %r" % (v,))

    def o_cmp(self, t, env):
        op, a, b = t.args
        a, b = self.ev(a, env), self.ev(b, env)
        if op == "is":
            if a is None or b is None or isinstance(a, (Obj, ClassVal)) or isinstance(b, (Obj, ClassVal)):
                return a is b
            raise Unknown("is")
        if op == "in":
            if isinstance(b, Dict):
                return b.has(a)
            if isinstance(b, (list, tuple)):
                return any(self.eq(a, x) for x in b)
            if isinstance(b, str) and isinstance(a, str):
                return a in b
            raise Unknown("in")
        if op == "==":
            return self.eq(a, b)
        x, y = self.real(a), self.real(b)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]

    def real(self, x):
        if isinstance(x, (int, float)):
            return x
        if isinstance(x, M) and x.scalar() and not np.any(x.a[0, 0, 1:]):
            return float(x.a[0, 0, 0])
        raise Unknown("comparison")

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Var) or isinstance(b, Var):
            if isinstance(a, Var) and isinstance(b, (Var, type(None), int, float, str)):
                return False
            if isinstance(b, Var) and isinstance(a, (type(None), int, float, str)):
                return False
            raise Unknown("equality")
        if isinstance(a, M) or isinstance(b, M):
            if a is None or b is None or isinstance(a, (str, Obj)) or isinstance(b, (str, Obj)):
                return False
            try:
                x, y = self.num(a), self.num(b)
            except Unknown:
                raise
            if x.shape != y.shape:
                # a zero matrix is equal to the number 0
                for p, q in ((x, y), (y, x)):
                    if q.scalar() and not np.any(q.a):
                        return not np.any(p.a)
                return False
            return bool(np.array_equal(x.a, y.a))
        if isinstance(a, (Obj, ClassVal)) or isinstance(b, (Obj, ClassVal)):
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and type(a) == type(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, Dict) or isinstance(b, Dict):
            raise Unknown("equality of dictionaries")
        return a == b

    # ------------------------------------------------------------ arithmetic
    def pair(self, t, env):
        return self.ev(t.args[0], env), self.ev(t.args[1], env)

    def arith(self, t, env, op, f):
        a, b = self.pair(t, env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return f(a, b)
        if op == "add" and isinstance(a, (list, tuple, str)) and type(a) == type(b):
            return a + b
        if op == "mul" and isinstance(a, list) and isinstance(b, int):
            return a * b
        if isinstance(a, Var) or isinstance(b, Var):
            raise Unknown("declared variable")
        x, y = self.num(a), self.num(b)
        if op in ("add", "sub") and x.shape != y.shape:
            if x.scalar() and isinstance(a, (int, float)) and a == 0:
                pass
            elif y.scalar() and isinstance(b, (int, float)) and b == 0:
                pass
            elif not np.any(x.a) and x.scalar() or not np.any(y.a) and y.scalar():
                pass
            else:
                raise ShapeError("sum of %s and %s" % (x.shape, y.shape))
        if op == "mul" and not x.scalar() and not y.scalar() and x.shape[1] != y.shape[0]:
            raise ShapeError("product of %s and %s" % (x.shape, y.shape))
        r = f(x, y)
        if r is x or r is y:
            return r
        k = kind2(a, b, op)
        if k == "zeros" and np.any(r.a):
            k = None
        return M(r.R, r.a, r.o, k)

    def o_add(self, t, env):
        return self.arith(t, env, "add", lambda a, b: a + b)

    def o_sub(self, t, env):
        return self.arith(t, env, "sub", lambda a, b: a - b)

    def o_mul(self, t, env):
        return self.arith(t, env, "mul", lambda a, b: a * b)

    def o_div(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a / b
        y = self.num(b)
        if not y.scalar():
            raise Unknown("division by a matrix")
        x = self.num(a)
        r = x / y
        return M(r.R, r.a, r.o, kind2(a, b, "mul"))

    def o_neg(self, t, env):
        a = self.ev(t.args[0], env)
        if isinstance(a, (int, float)):
            return -a
        x = self.num(a)
        return M(x.R, -x.a, x.o, x.kind if x.kind != "eye" else None)

    def o_pow(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a ** b
        e = self.real(b)
        x = self.num(a)
        if float(e).is_integer() and e >= 0:
            return self.k(x.pow(int(e)), a)
        if not x.scalar():
            raise Unknown("power of a matrix")
        if float(e).is_integer():
            return self.k(x.pow(int(e)), a)
        if x.a[0, 0, 0] <= 0:
            raise Unknown("root of a non-positive value")
        return self.k(x.pow(float(e)), a)

    def o_mod(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(a, int) and isinstance(b, int):
            return a % b
        raise Unknown("modulo")

    def o_floordiv(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a // b
        raise Unknown("floor division")

    def k(self, r, a):
        return M(r.R, r.a, r.o, "expr" if getattr(a, "kind", None) == "expr" else None)

    def unary(self, t, env, f, g):
        a = self.ev(t.args[0], env)
        if isinstance(a, (int, float)):
            return float(f(a))
        x = self.num(a)
        if not x.scalar():
            raise Unknown("function of a matrix")
        r = g(x)
        if not np.all(np.isfinite(r.a)):
            raise Unknown("not finite")
        return self.k(r, a)

    def o_sin(self, t, env):
        return self.unary(t, env, np.sin, lambda x: x.sin())

    def o_cos(self, t, env):
        return self.unary(t, env, np.cos, lambda x: x.cos())

    def o_tan(self, t, env):
        return self.unary(t, env, np.tan, lambda x: x.sin() / x.cos())

    def o_asin(self, t, env):
        return self.unary(t, env, np.arcsin, lambda x: arcsin(x))

    def o_acos(self, t, env):
        return self.unary(t, env, np.arccos, lambda x: self.R.mat(np.pi / 2) - arcsin(x))

    def o_atan(self, t, env):
        return self.unary(t, env, np.arctan, lambda x: arctan2(x, self.R.mat(1.0)))

    def o_atan2(self, t, env):
        a, b = self.pair(t, env)
        return self.k(arctan2(self.num(a), self.num(b)), a)

    def o_norm(self, t, env):
        x = self.num(self.ev(t.args[0], env))
        s = x.T() * x
        if s.a[0, 0, 0] <= 0:
            if np.any(s.a):
                raise Unknown("norm at zero")
            return self.R.mat(0.0)
        return s.pow(0.5)

    def o_transpose(self, t, env):
        a = self.ev(t.args[0], env)
        if isinstance(a, (int, float)):
            return a
        x = self.num(a)
        r = x.T()
        r.kind = x.kind
        return r

    def o_skew(self, t, env):
        x = self.num(self.ev(t.args[0], env))
        if x.shape not in ((3, 1), (1, 3)):
            raise ShapeError("skew of %s" % (x.shape,))
        r = jskew(x)
        r.kind = "expr" if x.kind == "expr" else x.kind
        return r

    def o_outer(self, t, env):
        a, b = self.pair(t, env)
        return self.num(a) * self.num(b).T()

    def o_solve(self, t, env):
        a, b = self.pair(t, env)
        x, y = self.num(a), self.num(b)
        if x.shape[0] != x.shape[1] or x.shape[0] != y.shape[0]:
            raise ShapeError("solve of %s and %s" % (x.shape, y.shape))
        return x.inv() * y

    def o_scalar(self, t, env):
        x = self.num(self.ev(t.args[0], env))
        if not x.scalar():
            raise ShapeError("scalar of %s" % (x.shape,))
        return x

    def o_sign(self, t, env):
        x = self.ev(t.args[0], env)
        x = self.num(x)
        if x.scalar() and x.a[0, 0, 0] != 0:
            return self.R.mat(1.0 if x.a[0, 0, 0] > 0 else -1.0)
        raise Unknown("sign")

    def o_element(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        return self.item(v[0], tuple(v[1:]) if len(v) > 2 else v[1])

    def shp(self, s):
        if isinstance(s, int):
            s = (s,)
        if isinstance(s, list):
            s = tuple(s)
        if not isinstance(s, tuple) or not all(isinstance(i, int) for i in s):
            raise Unknown("shape")
        if len(s) == 0:
            return (1, 1)
        return (s[0], 1) if len(s) == 1 else s

    def o_zeros(self, t, env):
        s = self.shp(self.ev(t.args[0], env)) if t.args else (1, 1)
        return M(self.R, np.zeros(s + (self.R.N,)), None, "zeros")

    def o_eye(self, t, env):
        s = self.ev(t.args[0], env) if t.args else 1
        s = (s, s) if isinstance(s, int) else self.shp(s)
        return M(self.R, self.R.const(np.eye(*s)), None, "eye")

    def o_jacobian(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(b, list):
            b = self.matrix(b)
        if isinstance(a, list):
            a = self.matrix(a)
        f = self.hooks.get("jacobian")
        if f is None:
            raise Unknown("jacobian")
        r = f(a if isinstance(a, M) else self.num(a), b)
        r.kind = "matrix"
        return r

    def o_der(self, t, env):
        f = self.hooks.get("der")
        if f is None:
            raise Unknown("der")
        return f(self.ev(t.args[0], env))

    def o_matrix(self, t, env):
        return self.matrix(self.ev(t.args[0], env))

    def o_shape(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (int, float)):
            return ()
        if isinstance(v, M):
            r, c = v.shape
            if (r, c) == (1, 1) and v.kind != "matrix":
                return ()
            return (r,) if c == 1 else (r, c)
        if isinstance(v, Var) and "declared" in v.a:
            return v.a["declared"]
        raise Unknown("shape of %r" % (v,))

    # ------------------------------------------------------------ containers
    def seq(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Dict):
            return [k for k, x in v.d.values()]
        if isinstance(v, M):
            r, c = v.shape
            if c == 1:
                return [v.get(i, 0) for i in range(r)]
        raise Unknown("sequence %r" % (v,))

    def o_list(self, t, env):
        return [self.ev(x, env) for x in t.args]

    def o_tuple(self, t, env):
        return tuple(self.ev(x, env) for x in t.args)

    def o_totuple(self, t, env):
        return tuple(self.seq(self.ev(t.args[0], env)))

    def o_concat(self, t, env):
        a, b = self.pair(t, env)
        return self.seq(a) + self.seq(b)

    def o_repeat(self, t, env):
        a, b = self.pair(t, env)
        if isinstance(a, int):
            a, b = b, a
        if not isinstance(b, int):
            raise Unknown("repeat")
        return self.seq(a) * b

    def o_range(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        if not all(isinstance(x, int) for x in v):
            raise Unknown("range")
        return list(range(*v))

    def o_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, tuple, str)):
            return len(v)
        if isinstance(v, Dict):
            return len(v.d)
        if isinstance(v, M):
            return v.shape[0]
        raise Unknown("len of %r" % (v,))

    def o_enumerate(self, t, env):
        n = self.ev(t.args[1], env) if len(t.args) > 1 else 0
        return [(i + n, x) for i, x in enumerate(self.seq(self.ev(t.args[0], env)))]

    def o_zip(self, t, env):
        return [tuple(x) for x in zip(*[self.seq(self.ev(a, env)) for a in t.args])]

    def o_reversed(self, t, env):
        return self.seq(self.ev(t.args[0], env))[::-1]

    def o_lremove(self, t, env):
        a, b = self.pair(t, env)
        a = self.seq(a)
        for i, x in enumerate(a):
            if self.eq(x, b):
                return a[:i] + a[i + 1:]
        raise Unknown("remove of something not in the list")

    def o_linsert(self, t, env):
        a, i, x = [self.ev(y, env) for y in t.args]
        a = self.seq(a)
        a.insert(i, x)
        return a

    def o_lpop(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        a = self.seq(v[0])
        i = v[1] if len(v) > 1 else -1
        if isinstance(i, slice):
            del a[i]
        else:
            a.pop(i)
        return a

    def o_dict(self, t, env):
        return Dict()

    def o_dset(self, t, env):
        d, k, v = [self.ev(x, env) for x in t.args]
        if not isinstance(d, Dict):
            return self.setitem(d, k, v)
        return d.set(k, v)

    def o_dpop(self, t, env):
        d, k = [self.ev(x, env) for x in t.args[:2]]
        if isinstance(d, Dict):
            if not d.has(k):
                if len(t.args) > 2:
                    return d
                raise Unknown("key %r" % (k,))
            n = dict(d.d)
            del n[Dict.k(k)]
            return Dict(n)
        if isinstance(d, list) and isinstance(k, int):
            d = list(d)
            del d[k]
            return d
        raise Unknown("removal")

    def o_setitem(self, t, env):
        d, k, v = [self.ev(x, env) for x in t.args]
        return self.setitem(d, k, v)

    def setitem(self, d, k, v):
        if isinstance(d, Dict):
            return d.set(k, v)
        if isinstance(d, list) and isinstance(k, int):
            d = list(d)
            d[k] = v
            return d
        if isinstance(d, M):
            x = self.num(v)
            a = d.a.copy()
            ix = self.indices(d, k)
            tgt = a[ix]
            if tgt.shape[:2] != x.shape:
                if tgt.shape[:2] == x.shape[::-1] and 1 in x.shape:
                    x = x.T()
                elif not np.any(x.a) and x.scalar():
                    x = M(x.R, np.zeros(tgt.shape), x.o)
                else:
                    raise ShapeError("assignment of %s to %s" % (x.shape, tgt.shape[:2]))
            a[ix] = x.a
            return M(d.R, a, min(d.o, x.o), "matrix")
        raise Unknown("item write")

    def o_slice(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        if not all(x is None or isinstance(x, int) for x in v):
            raise Unknown("slice")
        return slice(*v)

    def indices(self, d, k):
        r, c = d.shape
        if not isinstance(k, tuple):
            k = (k, 0) if c == 1 else (0, k) if r == 1 else divmod(k, c) if isinstance(k, int) and 0 <= k < r * c else (k, slice(None))
        if len(k) == 1:
            k = (k[0], 0)
        if len(k) != 2:
            raise Unknown("index")
        out = []
        for x, n in zip(k, (r, c)):
            if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
                if not -n <= x < n:
                    raise ShapeError("index %d of %d" % (x, n))
                x = x % n
                out.append(slice(x, x + 1))
            elif isinstance(x, slice):
                if x.step not in (None, 1):
                    raise Unknown("slice step")
                if x.stop is not None and x.stop > n or x.start is not None and x.start > n:
                    raise ShapeError("slice %s of %d" % (x, n))
                out.append(x)
            else:
                raise Unknown("index")
        return tuple(out)

    def item(self, d, k):
        if isinstance(d, M):
            r = d.a[self.indices(d, k)].copy()
            r = M(d.R, r, d.o, "expr" if d.kind == "expr" else None if r.shape[:2] == (1, 1) else "matrix" if d.kind == "matrix" else None)
            r.elem = r.shape == (1, 1) and d.shape != (1, 1) and r.kind is None
            return r
        if isinstance(d, Dict):
            return d.get(k)
        if isinstance(d, (list, tuple)) and isinstance(k, int):
            if not -len(d) <= k < len(d):
                raise Unknown("index out of range")
            return d[k]
        if isinstance(d, (list, tuple, str)) and isinstance(k, slice):
            return d[k]
        raise Unknown("item of %r" % (d,))

    def o_getitem(self, t, env):
        d = self.ev(t.args[0], env)
        return self.item(d, self.ev(t.args[1], env))

    def o_dvalues(self, t, env):
        d = self.ev(t.args[0], env)
        return [v for k, v in self.dic(d).d.values()]

    def o_dkeys(self, t, env):
        d = self.ev(t.args[0], env)
        return [k for k, v in self.dic(d).d.values()]

    def o_ditems(self, t, env):
        d = self.ev(t.args[0], env)
        return [(k, v) for k, v in self.dic(d).d.values()]

    def o_dget(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        d = self.dic(v[0])
        if d.has(v[1]):
            return d.get(v[1])
        return v[2] if len(v) > 2 else None

    def o_dcopy(self, t, env):
        return self.dic(self.ev(t.args[0], env))

    def dic(self, d):
        if not isinstance(d, Dict):
            raise Unknown("dictionary")
        return d

    def o_flatmap(self, t, env):
        b = t.args[0]
        out = []
        for x in self.seq(self.ev(b.coll, env)):
            s = Scope(b.id, x, env)
            if b.cond is True or self.ev(b.cond, s):
                out += self.seq(self.ev(b.value, s))
        return out

    def o_fmt(self, t, env):
        v = tuple(self.ev(x, env) for x in t.args[1:])
        if not all(isinstance(x, (str, int, float, type(None))) for x in v):
            raise Unknown("format")
        try:
            return t.args[0] % v
        except Exception:
            raise Unknown("format")

    def o_fstr(self, t, env):
        v = [self.ev(x, env) for x in t.args]
        if not all(isinstance(x, (str, int, float)) for x in v):
            raise Unknown("format")
        return "".join(map(str, v))

    def o_call(self, t, env):
        h = self.hooks.get("call:" + str(t.args[0]))
        if h:
            return h(self, [self.ev(x, env) for x in t.args[1:]])
        if t.args[0] in ("builtins.str", "str"):
            v = self.ev(t.args[1], env)
            if isinstance(v, (str, int)):
                return str(v)
        raise Unknown("call of %s" % (t.args[0],))

    def o_builtin(self, t, env):
        n = t.args[0]
        v = [self.ev(x, env) for x in t.args[1:]]
        if n == "str" and isinstance(v[0], (str, int)):
            return str(v[0])
        if n == "getattr" and len(v) > 1 and isinstance(v[1], str):
            if isinstance(v[0], Module):
                r = self.I.value_of(self.I.P.lookup(v[0].name, v[1]), None, v[0].name, v[1])
                return self.ev(r, env) if isinstance(r, T) else r
            return self.attr(v[0], v[1])
        if n in ("min", "max", "sum", "any", "all", "abs", "int", "float", "sorted") and v:
            s = v[0] if len(v) == 1 else v
            if isinstance(s, (list, tuple)) and all(isinstance(x, (int, float, bool)) for x in s) or isinstance(s, (int, float)):
                return {"min": min, "max": max, "sum": sum, "any": any, "all": all, "abs": abs, "int": int, "float": float, "sorted": sorted}[n](s)
        if n == "abs" and len(v) == 1 and isinstance(v[0], M) and v[0].scalar():
            c = float(v[0].a[0, 0, 0])
            if c == 0 and not np.any(v[0].a):
                return v[0]
            if abs(c) < 1e-9:
                raise Unknown("abs near zero")
            return v[0] if c > 0 else -v[0]
        if n == "sum" and v:
            r = v[1] if len(v) > 1 else 0
            for x in self.seq(v[0]):
                r = x if isinstance(r, int) and r == 0 else self.num(r) + self.num(x)
            return r
        raise Unknown("builtin %s" % n)

    machine = None

    def o_method(self, t, env):
        s = env
        while s is not None:
            if t in s.pins:
                if isinstance(s.pins[t], Exception):
                    raise s.pins[t]
                return s.pins[t]
            s = s.parent
        h = self.hooks.get("method:" + str(t.args[0]))
        if h:
            return h(self, [self.ev(x, env) for x in t.args[1:]])
        if t.args[0] in ("values", "items", "keys", "get", "copy") and len(t.args) > 1:
            b = self.ev(t.args[1], env)
            if isinstance(b, Dict):
                if t.args[0] == "values":
                    return [v for k, v in b.d.values()]
                if t.args[0] == "items":
                    return [(k, v) for k, v in b.d.values()]
                if t.args[0] == "keys":
                    return [k for k, v in b.d.values()]
                if t.args[0] == "get" and len(t.args) > 2:
                    k = self.ev(t.args[2], env)
                    return b.get(k) if b.has(k) else self.ev(t.args[3], env) if len(t.args) > 3 else None
                if t.args[0] == "copy":
                    return b
            if isinstance(b, list) and t.args[0] == "copy":
                return b
        if t.args[0] in ("startswith", "endswith", "lower", "upper", "strip", "replace", "split", "join", "isdigit", "isidentifier") and len(t.args) > 1:
            v = [self.ev(x, env) for x in t.args[1:]]
            if isinstance(v[0], str) and all(isinstance(x, (str, int, tuple, list)) for x in v[1:]):
                return getattr(v[0], t.args[0])(*v[1:])
        if len(t.args) > 1 and self.ev(t.args[1], env) is None:
            raise OfNone("method %s of None" % t.args[0])
        raise Unknown("method %s" % (t.args[0],))

    def o_kw(self, t, env):
        return (t.args[0], self.ev(t.args[1], env))

    def o_class(self, t, env):
        return t.args[0]

    def o_global(self, t, env):
        raise Unknown("name %s" % (t.args[-1],))

    # ------------------------------------------------------------ loops
    MAXROUNDS = 64

    def rounds(self, fold, env, before=None, after=None):
        """iterate a fold; returns the final state"""
        init = [UNDEF if x is UNDEF else self.lazy(x, env) for x in fold.init]
        state = init
        if fold.grow is not None:
            items = range(self.MAXROUNDS)
        elif fold.coll is not None:
            items = self.seq(self.ev(fold.coll, env))
        else:
            items = [None] * self.MAXROUNDS
        for n, x in enumerate(items):
            if fold.grow is not None:
                cur = state[fold.grow]
                if isinstance(cur, Unknown):
                    raise cur
                cur = self.seq(cur)
                if n >= len(cur):
                    return state
                if n == self.MAXROUNDS - 1:
                    raise Unknown("loop does not end")
                x = cur[n]
            s = Scope(fold.id, x, env, dict(zip([self.pkey(k) for k in fold.keys], state)))
            if fold.coll is None:
                if fold.cond is not True and not self.ev(fold.cond, s):
                    return state
                if n == self.MAXROUNDS - 1:
                    raise Unknown("loop does not end")
            if before:
                before(s)
            if after:
                after(s)
            stop = False if fold.stop is False else self.ev(fold.stop, s)
            new = [UNDEF if t is UNDEF else self.lazy(t, s) for t in fold.step]
            state = new
            if stop:
                return state
        return state

    def lazy(self, t, env):
        try:
            return self.ev(t, env)
        except Unknown as e:
            return e

    @staticmethod
    def pkey(k):
        from pyx import hkey
        if k[0] == "var":
            return ("var", k[1])
        if k[0] in ("ret", "retv"):
            return k
        return ("heap", hkey(k))

    def o_foldres(self, t, env):
        f, i = t.args
        k = mk("foldall", f)
        s = env
        v = None
        while s is not None:
            if k in self.done_folds(s):
                v = self.done_folds(s)[k]
                break
            s = s.parent
        if v is None:
            s = env
            while s.parent is not None and s.id not in f.free:
                s = s.parent
            c = s.memo.get(k)
            if c is None or c[0] != self.version:
                c = (self.version, self.rounds(f, s))
                s.memo[k] = c
            v = c[1]
        v = v[i]
        if isinstance(v, Unknown):
            raise v
        if v is UNDEF:
            raise Unknown("undefined loop result")
        return v

    def done_folds(self, s):
        if not hasattr(s, "folds"):
            s.folds = {}
        return s.folds


class ShapeError(Unknown):
    """operands whose shapes cannot be combined"""


def arcsin(x):
    # y = asin x: y' = x'/sqrt(1-x^2); through atan2
    one = x.R.mat(1.0)
    if not -1 < x.a[0, 0, 0] < 1:
        raise Unknown("asin outside its domain")
    return arctan2(x, (one - x * x).pow(0.5))


def arctan2(y, x):
    y0, x0 = float(y.a[0, 0, 0]), float(x.a[0, 0, 0])
    if y0 == 0 and x0 == 0:
        raise Unknown("atan2 at the origin")
    a = np.arctan2(y0, x0)
    # rotate by -a: (x', y') lies around the positive axis; atan2 = a + atan(y'/x')
    c, s = np.cos(a), np.sin(a)
    xr, yr = x * c + y * s, y * c - x * s
    u = yr / xr
    # atan series around zero
    out, p = u, u
    for k in range(3, u.R.order + 1, 2):
        p = p * u * u
        out = out + p * ((-1.0) ** ((k - 1) // 2) / k)
    out = M(out.R, out.a.copy(), out.o)
    out.a[..., 0] += a
    return out


def same(a, b):
    if isinstance(a, M) and isinstance(b, M):
        return a.shape == b.shape and np.allclose(a.a, b.a, atol=1e-12)
    return a is b or type(a) == type(b) and isinstance(a, (int, float, str, bool)) and a == b


class Strings:
    """a list of strings given to a function: the summary is made for it"""
    def __init__(self, items):
        self.items = items


class Summary:
    """what a function does: final state, loops and events of one extraction"""

    def __init__(self, prog, mk_interp, func, this, args, kw, types):
        self.I = I = mk_interp(prog)
        for t, c in types.items():
            I.types[t] = c
        st = State()
        f = func
        if this is not None:
            f = FuncVal(func.mod, func.node, cls=func.cls, this=this)
        self.error, self.dead = None, False
        fresh = lambda v: I.new_list(list(v.items), st) if isinstance(v, Strings) else v
        args, kw = [fresh(a) for a in args], {k: fresh(v) for k, v in kw.items()}
        try:
            self.value, self.final = I.run(f, args, kw, st)
            if isinstance(self.value, Ref) or isinstance(self.value, tuple):
                self.value = I.freeze(self.value, st)
        except Unsupported as e:
            self.error = "%s (%s)" % (e, func.qual)
        except Dead:
            self.dead = True
            self.error = "every path of %s raises" % func.qual
        if self.error is None:
            self.final = st.heap
        self.kids = {}
        for l in I.loops:
            self.kids.setdefault(l.loops[-1] if l.loops else None, []).append(("loop", l.order, l))
        for e in I.events:
            if e.kind in ("equation", "method", "call", "variable", "new", "raise", "dyn", "assert"):
                self.kids.setdefault(e.loops[-1] if e.loops else None, []).append((e.kind, e.order, e))
        for k in self.kids:
            self.kids[k].sort(key=lambda x: x[1])


class Equation:
    def __init__(self, lhs, rhs, kind, where, line):
        self.lhs, self.rhs, self.kind, self.where, self.line = lhs, rhs, kind, where, line


class Machine:
    """evaluates calls of the analysed program through the summaries of its functions"""

    def __init__(self, prog, mk_interp, ring, hooks, cache=None):
        self.P, self.mk, self.R, self.hooks = prog, mk_interp, ring, hooks
        self.cache = {} if cache is None else cache
        self.equations = []
        self.declared = []
        self.unknown = []
        self.raised = []
        self.asking = []
        self.modules = {}
        self.trying = 0
        self.depth = 0
        self.used = set()
        self.vars = {}
        self.stored = {}

    def method(self, obj, name, /, *args, **kw):
        m = self.P.method(obj.cls, name)
        if m is None:
            raise Unknown("no method %s of %s" % (name, obj.cls.name))
        return self.call(m, obj, args, kw)

    def construct(self, cls, /, *args, **kw):
        o = Obj(cls)
        o.__dict__["made"] = True
        m = self.P.method(cls, "__init__")
        if m:
            self.call(m, o, args, kw)
        return o

    def text(self, e):
        t = text(e)
        t.missing = t.missing and not self.trying
        return t

    def module(self, name):
        """the module as the holder of the names its functions write"""
        o = self.modules.get(name)
        if o is None:
            o = self.modules[name] = Obj(None, name=name)
            m = self.P.module(name)
            I = self.mk(self.P)
            for n in self.P.written(m):
                d = m.defs.get(n)
                if isinstance(d, ast.Assign) and isinstance(d.value, ast.Constant):
                    o.a[n] = d.value.value
        return o

    def local(self, func, args, kw, free):
        """a (nested) function with the values of the names it takes from outside"""
        return self.call(func, None, args, kw, free)

    def call(self, func, this, args, kw, free=None):
        names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in func.node.decorator_list) if hasattr(func.node, "decorator_list") else False
        vals, types, tkey = {}, {}, []
        leaf = {}

        def give(n, v):
            if v is None or isinstance(v, (str, bool)):
                tkey.append((n, repr(v)))
                return v
            if isinstance(v, list) and v and all(isinstance(x, str) for x in v):
                tkey.append((n, repr(v)))
                return Strings(v)
            t = mk("arg", "%s:%s" % (func.qual, n))
            vals[t.args[0]] = v
            if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
                types[t] = v.cls
                tkey.append((n, v.cls.qual))
            else:
                tkey.append((n, "?"))
            return t
        th = None
        if this is not None and not static:
            th = give(names[0], this)
            names = names[1:]
        a = [give(n, v) for n, v in zip(names, args)]
        if len(args) > len(names):
            va = func.node.args.vararg
            if va is None:
                raise Unknown("too many arguments of %s" % func.qual)
            a += [give("*%d" % i, v) for i, v in enumerate(args[len(names):])]
        k = {n: give(n, v) for n, v in kw.items()}
        if free is not None:
            fr = Frame(func.frame.func if func.frame is not None else None)
            func = FuncVal(func.mod, func.node, frame=fr, cls=func.cls)
            for n, v in free.items():
                if isinstance(v, FuncVal):
                    fr.vars[n] = FuncVal(v.mod, v.node, frame=fr, cls=v.cls, this=v.this) if v.frame is not None else v
                    tkey.append(("free " + n, v.qual))
                elif isinstance(v, (ClassVal, Ext, Module)):
                    fr.vars[n] = v
                else:
                    fr.vars[n] = give("free " + n, v)
        key = (func.qual, tuple(sorted(tkey)))
        s = self.cache.get(key)
        if s is None:
            s = self.cache[key] = Summary(self.P, self.mk, func, th, a, k, types)
        self.used.add(func.qual)
        self.used |= s.I.inlined
        if s.error:
            if s.dead and not self.trying:
                self.raised.append((func.mod.path, func.node.lineno))
            raise Unknown(s.error)
        if self.depth > 12:
            raise Unknown("call depth")
        self.depth += 1
        try:
            E = Evaluator(self.R, s.I, vals, self.hooks)
            E.machine = self
            E.vars = self.vars
            r = Replay(E, s, self)
            r.run()
            return E.ev(s.value, E.root)
        finally:
            self.depth -= 1


class Replay:
    """stores, calls and equations of a summary, in the order of the program"""

    def __init__(self, ev, summary, machine):
        self.E, self.I, self.S, self.m = ev, summary.I, summary, machine
        self.unknown = machine.unknown

    def run(self):
        self.body(None, {}, self.S.final, self.E.root)

    def body(self, fold, before, end, env):
        seen = {}
        for kind, order, x in self.S.kids.get(fold, ()):
            if not self.active(x, env):
                continue
            if kind in ("method", "call", "dyn") and x.intry:
                self.m.trying += 1
                try:
                    self.commit(before, x.entry, env, seen)
                    {"method": self.invoke, "call": self.local, "dyn": self.dyn}[kind](x, env)
                finally:
                    self.m.trying -= 1
                continue
            if kind == "loop":
                self.commit(before, x.entry, env, seen)
                self.loop(x, env)
            elif kind == "method":
                self.commit(before, x.entry, env, seen)
                self.invoke(x, env)
            elif kind == "call":
                self.commit(before, x.entry, env, seen)
                self.local(x, env)
            elif kind == "dyn":
                self.commit(before, x.entry, env, seen)
                self.dyn(x, env)
            elif kind == "new":
                o = env.refs[x.data["value"]] = Obj(x.data["cls"])
                o.__dict__["made"] = True
                E = self.E
                E.version += 1
            elif kind == "raise":
                if not x.intry and not self.m.trying:
                    self.m.raised.append((x.mod.path, x.line))
            elif kind == "assert":
                c = x.data["cond"]
                if x.intry or self.m.trying or frees(c) - env.ids:
                    continue
                self.commit(before, x.entry, env, seen)
                if self.holds(c, env) is False:
                    self.m.raised.append((x.mod.path, x.line))
            elif kind == "variable":
                d = x.data
                v, name, shape, vk = [self.E.lazy(d[n], env) if n in d else None for n in ("value", "name", "shape", "varKind")]
                self.m.declared.append((v, name, shape, vk))
                if isinstance(v, Var) and isinstance(shape, (tuple, list)):
                    v.a["declared"] = tuple(shape)
            elif kind == "equation":
                d = x.data
                lhs, rhs, kd = [self.E.lazy(d[n], env) for n in ("lhs", "rhs", "kind")]
                self.m.equations.append(Equation(lhs, rhs, kd, x.mod.path, x.line))
        self.commit(before, end, env, seen)

    def holds(self, c, env):
        """three valued: conditions on the kinds of objects, names and None"""
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return None
        if c.op == "not":
            v = self.holds(c.args[0], env)
            return None if v is None else not v
        if c.op in ("and", "or"):
            v = [self.holds(x, env) for x in c.args]
            return (c.op == "or") if (c.op == "or") in v else None if None in v else c.op == "and"
        try:
            if c.op == "cmp" and c.args[0] in ("is", "=="):
                a, b = self.E.ev(c.args[1], env), self.E.ev(c.args[2], env)
                if a is None or b is None:
                    x = b if a is None else a
                    return x is None if x is None or isinstance(x, (str, int, float, Obj, M)) and not isinstance(x, Var) else None
                if isinstance(a, str) and isinstance(b, str):
                    return a == b
                if all(type(x) is Obj and isinstance(x.cls, ClassVal) for x in (a, b)):
                    return a is b if c.args[0] == "is" or self.m.P.method(a.cls, "__eq__") is None else None
            if c.op == "isinst":
                v = self.E.ev(c.args[0], env)
                cs = [self.E.ev(x, env) if isinstance(x, T) else x for x in c.args[1]]
                if type(v) is Obj and isinstance(v.cls, ClassVal) and all(isinstance(x, ClassVal) for x in cs):
                    return any(x in self.m.P.mro(v.cls) for x in cs)
                if v is None and all(isinstance(x, ClassVal) for x in cs):
                    return False
        except Unknown:
            pass
        return None

    def invoke(self, x, env):
        self.invoke1(x, env)
        E = self.E
        for ref, name, t in x.data.get("late", ()):
            # what the method left in the objects it was given
            try:
                o = E.ev(mk("obj", ref), env)
                v = o.a.get(name, Unknown("attribute " + name)) if isinstance(o, Obj) else Unknown("object")
            except Unknown as e:
                v = e
            E.scope_of(t, env).pins[t] = v
            env.pins[t] = v

    def invoke1(self, x, env):
        E = self.E
        d = x.data
        t = d["value"]
        b = d["base"]
        if not isinstance(b, T) or not isinstance(t, T):
            return
        try:
            o = E.ev(b, env)
        except Unknown:
            return
        if not isinstance(o, Obj) or not isinstance(o.cls, ClassVal) or self.m.P.method(o.cls, d["name"]) is None:
            return
        try:
            args = [E.ev(self.I.freeze(a, Heap(x.entry)), env) if not isinstance(a, (ClassVal, FuncVal, Ext, Module)) else a for a in d["args"]]
            kw = {k: E.ev(self.I.freeze(v, Heap(x.entry)), env) for k, v in d["kw"].items()}
            v = self.m.method(o, d["name"], *args, **kw)
        except Unknown as e:
            v = e
            self.unknown.append(("%s.%s" % (o.cls.name, d["name"]), self.m.text(e)))
        E.version += 1
        E.scope_of(t, env).pins[t] = v
        env.pins[t] = v

    def local(self, x, env):
        """a call the extraction left alone because it is recursive"""
        E, d = self.E, x.data
        f, t = d.get("target"), d["value"]
        if not isinstance(f, FuncVal) or f.frame is None and f.cls is not None or E.hooks.get("call:" + f.qual):
            return
        def give(a):
            return a if isinstance(a, (ClassVal, FuncVal, Ext, Module)) else E.ev(self.I.freeze(a, Heap(x.entry)), env)
        try:
            v = self.m.local(f, [give(a) for a in d["args"]], {k: give(a) for k, a in d["kw"].items()}, {n: give(a) for n, a in d["free"].items()})
        except Unknown as e:
            v = e
            self.unknown.append((f.qual, self.m.text(e)))
        E.version += 1
        E.scope_of(t, env).pins[t] = v
        env.pins[t] = v

    def dyn(self, x, env):
        """a call of a target or with arguments that are values"""
        E, d = self.E, x.data
        t = d["value"]
        def give(a):
            return a if isinstance(a, (ClassVal, FuncVal, Ext, Module)) else E.ev(self.I.freeze(a, Heap(x.entry)), env)
        try:
            f = d["func"]
            if isinstance(f, T):
                f = E.ev(f, env)
            args = []
            for star, a in d["args"]:
                a = give(a)
                if star:
                    args += list(E.seq(a))
                else:
                    args.append(a)
            kw = {k: give(a) for k, a in d["kw"].items()}
            if isinstance(f, ClassVal):
                v = self.m.construct(f, *args, **kw)
            elif isinstance(f, FuncVal):
                v = self.m.call(f, f.this if f.this is None or not isinstance(f.this, (T, Ref)) else E.ev(mk("obj", f.this) if isinstance(f.this, Ref) else f.this, env), args, kw)
            else:
                raise Unknown("call of %r" % (f,))
        except Unknown as e:
            v = e
            self.unknown.append((x.mod.path + ":%d" % x.line, self.m.text(e)))
        E.version += 1
        E.scope_of(t, env).pins[t] = v
        env.pins[t] = v

    def loop(self, l, env):
        E = self.E

        def after(s):
            self.body(l.fold, l.before.heap, l.end.heap, s)
        try:
            v = E.rounds(l.fold, env, after=after)
        except Unknown as e:
            self.unknown.append(("%s:%d" % (l.mod.path, l.node.lineno), self.m.text(e)))
            return
        E.done_folds(env)[mk("foldall", l.fold)] = v

    def active(self, l, env):
        for c in l.pc:
            if frees(c) - env.ids:
                continue
            try:
                if not self.E.ev(c, env):
                    return False
            except Unknown as e:
                self.unknown.append(("condition", self.m.text(e)))
                return False
        return True

    def commit(self, before, heap, env, seen):
        E = self.E
        todo = []
        for k, v in heap.items():
            if k[0] != "attr" or isinstance(k[1], T) and not k[1].free <= env.ids:
                continue
            if isinstance(k[1], Ref) and (k[1].kind != "obj" or k[2].startswith("init:")):
                continue
            if isinstance(v, Ref):
                v = self.I.freeze(v, Heap(heap))
            elif before.get(k, UNDEF) is v:
                continue
            if seen.get(k, UNDEF) is v:
                continue
            seen[k] = v
            try:
                b = E.ev(k[1], env)
            except Unknown as e:
                continue
            if not isinstance(b, Obj):
                continue
            self.m.stored.setdefault((b, k[2]), []).append(self.where(k, v))
            if isinstance(k[1], T):
                leaf = mk("attr", k[1], k[2])
                sc = E.scope_of(leaf, env)
                if leaf not in sc.pins:
                    sc.pins[leaf] = E.lazy(leaf, env)
            try:
                todo.append((b, k[2], E.ev(v, env)))
            except Unknown as e:
                if isinstance(e, NoAttr) and e.obj is b and e.attr == k[2]:
                    continue        # what was missing stays missing
                if not self.noop(v, k, env):
                    todo.append((b, k[2], e))
                    self.unknown.append((k[2], self.m.text(e)))
        for b, n, v in todo:
            if isinstance(v, Unknown):
                b.a.pop(n, None)
            else:
                b.a[n] = v
        if todo:
            E.version += 1

    def where(self, k, v):
        """lines that write this attribute"""
        out = []
        for base, name, val, line, mod, pc, loops in self.I.writes:
            if name == k[2] and base is k[1]:
                out.append((mod.path, line))
        return out

    def noop(self, v, k, env):
        """does the value reduce to the attribute itself?"""
        while isinstance(v, T) and v.op == "ite":
            try:
                v = v.args[1] if self.E.ev(v.args[0], env) else v.args[2]
            except Unknown:
                return False
        return isinstance(v, T) and v.op == "attr" and v.args[0] is k[1] and v.args[1] == k[2] or isinstance(v, T) and v.op == "phi"


class Heap:
    def __init__(self, heap):
        self.heap = heap
