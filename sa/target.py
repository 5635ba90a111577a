"""Grammars (precedence, associativity, indexing, literals) of the emitted languages and the
meaning of the emitted operators and library functions over numbers and arrays."""
import math
import re

import numpy as np


class Bad(Exception):
    """the text is not a well-formed expression of the language / has no meaning there"""


class Undef(Exception):
    """well formed, but not defined at this point (or not comparable there)"""


class Lang:
    def __init__(self, name, binary, unary, right=(), nonassoc=(), base=0, idx="[", commafree=False, words=()):
        self.name, self.binary, self.unary, self.right, self.nonassoc, self.base, self.idx = name, binary, unary, right, nonassoc, base, idx
        self.words = words


REL = {"<": 20, ">": 20, "==": 20, "<=": 20, ">=": 20, "!=": 20, "~=": 20}
ARI = {"+": 30, "-": 30, "*": 40, "/": 40}
PYTHON = Lang("python", dict(REL, **ARI, **{"**": 60}), {"-": 50, "+": 50}, right=("**",))
C = Lang("c", dict(REL, **{"<": 22, ">": 22, "<=": 22, ">=": 22}, **ARI), {"-": 50, "+": 50, "!": 50})
CSHARP = Lang("csharp", C.binary, C.unary)
# sign binds like + and - in Fortran and Modelica; power binds tighter everywhere it exists
FORTRAN = Lang("fortran", dict(REL, **ARI, **{"**": 60}), {"-": 30, "+": 30}, right=("**",), base=1, idx="(")
MATLAB = Lang("matlab", dict(REL, **ARI, **{"\\": 40, "^": 60, ".*": 40, "./": 40}), {"-": 50, "+": 50, "~": 50}, base=1, idx="(")
MODELICA = Lang("modelica", dict(REL, **ARI, **{"^": 60}), {"-": 30, "+": 30}, nonassoc=("^",), base=1)

TOK = re.compile(r"\s*(?:(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eEdD][+-]?\d+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>\*\*|==|<=|>=|!=|~=|->|\(/|/\)|\.\*|\./|[-+*/^\\<>=()\[\]{},;.?:!~&]))")


def tokens(s, lang):
    out, i = [], 0
    if lang.name == "fortran":
        s = re.sub(r"&\s*\n\s*", " ", s)
    while i < len(s):
        if s[i:].strip() == "":
            break
        m = TOK.match(s, i)
        if not m:
            raise Bad("cannot tokenise at %r" % s[i:i + 12])
        k = m.lastgroup
        v = m.group(k)
        if k == "op" and v in ("(/", "/)") and lang.name != "fortran":
            v = v[0]
            i = m.start(k) + 1
            out.append(("op", v, m.start(k)))
            continue
        out.append((k, v, m.start(k)))
        i = m.end()
    return out


class Parser:
    def __init__(self, text, lang):
        self.t, self.l, self.i = tokens(text, lang), lang, 0
        self.text = text

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, v=None):
        if self.i >= len(self.t):
            raise Bad("unexpected end")
        x = self.t[self.i]
        if v is not None and x[1] != v:
            raise Bad("expected %r, found %r" % (v, x[1]))
        self.i += 1
        return x[1]

    def parse(self):
        e = self.expr(0)
        if self.i < len(self.t):
            raise Bad("unexpected %r" % self.peek())
        return e

    def expr(self, p):
        """full expression, ternaries included when p == 0"""
        n = self.l.name
        if p == 0 and n == "modelica" and self.peek() == "if":
            self.eat()
            c = self.expr(0)
            self.eat("then")
            a = self.expr(0)
            self.eat("else")
            b = self.expr(0)
            return ("if", c, a, b)
        e = self.binary(max(p, 1))
        if p == 0:
            if n in ("c", "csharp") and self.peek() == "?":
                self.eat()
                a = self.expr(0)
                self.eat(":")
                b = self.expr(0)
                return ("if", e, a, b)
            if n == "python" and self.peek() == "if":
                self.eat()
                c = self.binary(1)
                self.eat("else")
                b = self.expr(0)
                return ("if", c, e, b)
        return e

    def binary(self, p):
        if self.peek() in self.l.unary and self.kind() == "op":
            op = self.eat()
            q = self.l.unary[op]
            if q < p:
                raise Bad("sign directly after an operator")
            e = ("un", op, self.binary(q + 1 if q == 30 else q))
        else:
            e = self.postfix()
        last = None
        while self.kind() == "op" and self.peek() in self.l.binary:
            op = self.peek()
            q = self.l.binary[op]
            if q < p:
                break
            self.eat()
            if op in self.l.nonassoc and last == op:
                raise Bad("%s is not associative" % op)
            # right operand of a power may be signed in Python and Matlab
            if q == 60 and self.peek() in ("-", "+") and self.l.name in ("python", "matlab"):
                s = self.eat()
                r = ("un", s, self.binary(60))
            else:
                r = self.binary(q if op in self.l.right else q + 1)
            if q in (20, 22) and e[0] == "bin" and e[1] in REL and self.l.name == "python" and last:
                raise Bad("chained comparison")
            e = ("bin", op, e, r)
            last = op
        return e

    def postfix(self):
        e = self.atom()
        while True:
            k = self.peek()
            # no postfix after a plain number
            if k == "(" and e[0] in ("id", "attr"):
                self.eat()
                e = ("call", e, self.arglist(")"))
            elif k == "(" and self.l.idx == "(" and e[0] in ("paren", "call"):
                raise Bad("indexing a parenthesised expression")
            elif k == "[" and self.l.idx == "[":
                if e[0] == "num":
                    raise Bad("indexing a number")
                self.eat()
                e = ("index", e, self.arglist("]")[0])
            elif k == "." and self.i + 1 < len(self.t) and self.t[self.i + 1][0] == "id":
                if e[0] == "num":
                    raise Bad("attribute of a number")
                self.eat()
                e = ("attr", e, self.eat())
            elif k == "->":
                self.eat()
                e = ("attr", e, self.eat())
            else:
                return e

    def arglist(self, close):
        pos, kw = [], []
        while self.peek() != close:
            if self.kind() == "id" and self.peek(1) == "=" :
                n = self.eat()
                self.eat("=")
                kw.append((n, self.expr(0)))
            else:
                pos.append(self.expr(0))
            if self.peek() == ",":
                self.eat()
                if self.peek() == close and self.l.name not in ("python", "c", "csharp"):
                    raise Bad("trailing comma")
            elif self.peek() != close:
                raise Bad("expected , or %s, found %r" % (close, self.peek()))
        self.eat(close)
        return (tuple(pos), tuple(kw)) if close == ")" else (tuple(pos),)

    def rows(self, close):
        """[a,b;c,d]"""
        rows, row = [], []
        while self.peek() != close:
            row.append(self.expr(0))
            if self.peek() == ",":
                self.eat()
                if self.peek() in (close, ";"):
                    raise Bad("trailing comma")
            elif self.peek() == ";":
                self.eat()
                rows.append(tuple(row))
                row = []
            elif self.peek() != close:
                raise Bad("expected separator, found %r" % self.peek())
        self.eat(close)
        rows.append(tuple(row))
        return ("rows", tuple(rows))

    def atom(self):
        k, v = self.kind(), self.peek()
        if k is None:
            raise Bad("unexpected end")
        if k == "num":
            self.eat()
            if self.l.name != "fortran" and "d" in v.lower():
                raise Bad("number %s" % v)
            return ("num", float(v.lower().replace("d", "e")))
        if k == "id":
            if v in ("if", "then", "else"):
                raise Bad("unexpected " + v)
            self.eat()
            return ("id", v)
        if v == "(/":
            self.eat()
            xs = []
            while self.peek() != "/)":
                xs.append(self.expr(0))
                if self.peek() == ",":
                    self.eat()
                    if self.peek() == "/)":
                        raise Bad("trailing comma")
                elif self.peek() != "/)":
                    raise Bad("expected , found %r" % self.peek())
            self.eat()
            return ("list", tuple(xs))
        if v == "(":
            self.eat()
            e = self.expr(0)
            if self.peek() == "," and self.l.name == "python":
                xs = [e]
                while self.peek() == ",":
                    self.eat()
                    if self.peek() == ")":
                        break
                    xs.append(self.expr(0))
                self.eat(")")
                return ("list", tuple(xs))
            self.eat(")")
            return ("paren", e)
        if v == "[" and self.l.name == "matlab":
            self.eat()
            return self.rows("]")
        if v == "[" and self.l.name == "python" or v == "{" and self.l.name in ("c", "csharp", "modelica"):
            self.eat()
            return ("list", self.arglist({"[": "]", "{": "}"}[v])[0])
        if v == "." and self.l.name == "fortran" and self.peek(2) == ".":
            self.eat()
            w = self.eat()
            self.eat(".")
            return ("id", "." + w + ".")
        raise Bad("unexpected %r" % v)


def parse(text, lang):
    return Parser(text, lang).parse()


def strip(e):
    """without redundant parentheses"""
    if isinstance(e, tuple):
        if e and e[0] == "paren":
            return strip(e[1])
        return tuple(strip(x) for x in e)
    return e


def loose(e):
    """does the text need parentheses when used as an operand?"""
    return e[0] in ("bin", "un", "if")


def dotted(e):
    if e[0] == "id":
        return e[1]
    if e[0] == "attr":
        d = dotted(e[1])
        return d and d + "." + e[2]
    return None


def sc(x):
    x = np.asarray(x)
    if x.size != 1:
        raise Bad("scalar expected")
    return x.reshape(-1)[0]


def is_s(x):
    return np.ndim(x) == 0


def real(x):
    return float(np.real(sc(x)))


def guarded(f):
    def g(x):
        with np.errstate(all="ignore"):
            r = f(np.asarray(x, dtype=complex))
        if not np.all(np.isfinite(r)):
            raise Undef("undefined")
        return r if np.ndim(x) else r[()]
    return g


FUN1 = {"sin": guarded(np.sin), "cos": guarded(np.cos), "tan": guarded(np.tan), "asin": guarded(np.arcsin), "acos": guarded(np.arccos),
        "atan": guarded(np.arctan), "abs": guarded(lambda x: np.abs(x.real)), "fabs": guarded(lambda x: np.abs(x.real)), "sign": guarded(lambda x: np.sign(x.real)),
        "sqrt": guarded(np.sqrt)}


def inv(x):
    x = np.asarray(x)
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        raise Bad("inverse of a non-square")
    try:
        return np.linalg.inv(x)
    except np.linalg.LinAlgError:
        raise Undef("singular")


def solve(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or b.ndim != 2 or b.shape[0] != a.shape[0]:
        raise Bad("solve shapes")
    try:
        return np.linalg.solve(a, b)
    except np.linalg.LinAlgError:
        raise Undef("singular")


def skew(v):
    v = np.asarray(v)
    if v.size != 3:
        raise Bad("skew of a non 3-vector")
    x, y, z = v.reshape(-1)
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def matpow(a, n):
    a = np.asarray(a)
    n = real(n)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or n != int(n):
        raise Bad("matrix power")
    n = int(n)
    if n < 0:
        a, n = inv(a), -n
    return np.linalg.matrix_power(a, n)


def atan2(y, x):
    return complex(math.atan2(real(y), real(x)))


def spow(a, b):
    a, b = complex(sc(a)), complex(sc(b))
    if a == 0 and b.real <= 0 and b != 0:
        raise Undef("0**negative")
    if a.imag == 0 and a.real < 0 and b.real != int(b.real):
        raise Undef("negative base")
    return a ** b


class Eval:
    """meaning of a parsed expression; env: name -> number / array (2-D; vectors of C are 1-D)"""

    def __init__(self, lang, env):
        self.l, self.env = lang, env
        self.n = lang.name

    def ev(self, e):
        return getattr(self, "e_" + e[0])(e)

    def e_num(self, e): return complex(e[1])
    def e_paren(self, e): return self.ev(e[1])

    def e_id(self, e):
        v = e[1]
        if v in self.env:
            return self.env[v]
        t = {"python": ("True", "False"), "modelica": ("true", "false"), "matlab": ("true", "false"), "csharp": ("true", "false"),
             "fortran": (".TRUE.", ".FALSE."), "c": ("fmiTrue", "fmiFalse")}[self.n]
        if v in t:
            return 1.0 if v == t[0] else 0.0
        raise Bad("unknown name " + v)

    def e_list(self, e):
        xs = [self.ev(x) for x in e[1]]
        if self.n == "fortran":
            return np.array([sc(x) for x in xs])
        try:
            if len(set(np.shape(x) for x in xs)) > 1:
                raise Bad("ragged list")
            return np.array(xs)
        except ValueError:
            raise Bad("ragged list")

    def e_rows(self, e):
        try:
            return np.block([[np.atleast_2d(self.ev(x)) for x in r] for r in e[1]])
        except ValueError:
            raise Bad("ragged matrix")

    def e_un(self, e):
        x = self.ev(e[2])
        if e[1] == "-":
            return -x
        if e[1] == "+":
            return x
        return 0.0 if real(x) else 1.0

    def e_if(self, e):
        c = self.ev(e[1])
        return self.ev(e[2]) if real(c) != 0 else self.ev(e[3])

    def e_bin(self, e):
        a, b, op = self.ev(e[2]), self.ev(e[3]), e[1]
        if op in ("<", ">", "==", "<=", ">=", "!=", "~="):
            x, y = real(a), real(b)
            return 1.0 if {"<": x < y, ">": x > y, "==": x == y, "<=": x <= y, ">=": x >= y, "!=": x != y, "~=": x != y}[op] else 0.0
        if op in ("+", "-"):
            if not is_s(a) and not is_s(b) and np.shape(a) != np.shape(b):
                raise Bad("shapes %s %s %s" % (np.shape(a), op, np.shape(b)))
            if is_s(a) != is_s(b) and self.n in ("modelica",) or (is_s(a) != is_s(b) and self.n == "c"):
                raise Undef("scalar %s array" % op)
            return a + b if op == "+" else a - b
        if op == "*":
            if is_s(a) or is_s(b):
                if self.n == "c" and not (is_s(a) and is_s(b)):
                    raise Bad("array arithmetic in C")
                return a * b
            if self.n == "c":
                raise Bad("array arithmetic in C")
            if self.n == "fortran":
                if np.shape(a) != np.shape(b):
                    raise Bad("elementwise product of different shapes")
                return a * b
            if np.ndim(a) != 2 or np.ndim(b) != 2 or a.shape[1] != b.shape[0]:
                raise Bad("matrix product %s * %s" % (np.shape(a), np.shape(b)))
            return a @ b
        if op == "/":
            if not is_s(b):
                raise Bad("division by an array")
            if b == 0:
                raise Undef("division by zero")
            return a / b
        if op == "\\":
            return solve(a, b) if not is_s(a) else b / a
        if op in ("**", "^"):
            if is_s(a):
                return spow(a, b)
            if self.n == "fortran":
                raise Bad("elementwise power")
            return matpow(a, b)
        raise Bad("operator " + op)

    def e_index(self, e):
        return self.index(self.ev(e[1]), [self.ev(x) for x in e[2]])

    def index(self, x, ix):
        ix = [int(real(i)) - self.l.base for i in ix]
        if np.ndim(x) != len(ix):
            if self.n in ("c",) and np.ndim(x) > len(ix) and 0 <= ix[0] < np.shape(x)[0]:
                return x[ix[0]]
            if self.n == "matlab" and len(ix) == 1 and np.ndim(x) == 2:
                if not 0 <= ix[0] < x.size:
                    raise Bad("index out of range")
                return x.T.reshape(-1)[ix[0]]
            raise Bad("%d indices on %d dimensions" % (len(ix), np.ndim(x)))
        for i, s in zip(ix, np.shape(x)):
            if not 0 <= i < s:
                raise Bad("index out of range")
        return x[tuple(ix)]

    def e_attr(self, e):
        d = dotted(e)
        if d and d in self.env:
            return self.env[d]
        if self.n == "python" and e[2] in ("T", "I"):
            x = self.ev(e[1])
            if is_s(x):
                raise Bad(".%s of a number" % e[2])
            return np.asarray(x).T if e[2] == "T" else inv(x)
        raise Bad("attribute " + e[2])

    def e_call(self, e):
        f = dotted(e[1])
        if f is not None and self.l.idx == "(" and f in self.env:
            if e[2][1]:
                raise Bad("keyword in index")
            return self.index(self.env[f], [self.ev(x) for x in e[2][0]])
        if e[1][0] == "attr" and self.n == "csharp" and e[1][2] in ("Transpose", "Inverse") and not e[2][0]:
            x = self.ev(e[1][1])
            if is_s(x):
                raise Bad("method of a number")
            return x.T if e[1][2] == "Transpose" else inv(x)
        a = [self.ev(x) for x in e[2][0]]
        m = getattr(self, "f_" + self.n)(f, a)
        if m is None:
            raise Bad("unknown function %s/%d" % (f, len(a)))
        return m

    def one(self, f, a):
        if f in FUN1 and len(a) == 1:
            return FUN1[f](a[0])
        if f == "atan2" and len(a) == 2:
            return atan2(*a)
        return None

    def f_python(self, f, a):
        if f in ("fabs", "sqrt") :
            return None
        if f == "matrix" and len(a) == 1:
            return np.atleast_2d(a[0])
        if f == "zeros" and len(a) == 1:
            return np.zeros([int(real(x)) for x in np.atleast_1d(a[0])], dtype=complex)
        if f == "linalg.solve" and len(a) == 2:
            return solve(*a)
        return self.one(f, a)

    def f_c(self, f, a):
        for x in a:
            if not is_s(x):
                raise Bad("array argument in C")
        if f == "pow" and len(a) == 2:
            return spow(*a)
        if f == "r" and len(a) == 1:
            return a[0]
        if f == "abs":
            return np.trunc(abs(real(a[0])))      # integer function in C
        if f in ("sign",):
            return None
        return self.one(f, a)

    def f_csharp(self, f, a):
        if f == "Math.Pow" and len(a) == 2:
            return spow(*a)
        if f and f.startswith("Math."):
            for x in a:
                if not is_s(x):
                    raise Bad("array argument of " + f)
            return self.one(f[5:].lower(), a)
        return None

    def f_fortran(self, f, a):
        if f == "matmul" and len(a) == 2:
            x, y = a
            if np.ndim(x) != 2 or np.ndim(y) != 2 or x.shape[1] != y.shape[0]:
                raise Bad("matmul %s %s" % (np.shape(x), np.shape(y)))
            return x @ y
        if f == "reshape" and len(a) == 2:
            sh = [int(real(x)) for x in a[1]]
            if a[0].size != sh[0] * sh[1]:
                raise Bad("reshape size")
            return a[0].reshape((sh[1], sh[0])).T
        if f == "scalar" and len(a) == 1:
            return sc(a[0])
        if f == "skew" and len(a) == 1:
            return skew(a[0])
        if f == "transpose" and len(a) == 1 and not is_s(a[0]):
            return a[0].T
        if f == "LEGS" and len(a) == 2:
            return solve(*a)
        if f == "MIGS" and len(a) == 1:
            return inv(a[0])
        if f == "matpow" and len(a) == 2:
            return matpow(*a)
        if f == "sign" and len(a) == 2:
            return complex(math.copysign(abs(real(a[0])), real(a[1])))
        if f in ("fabs", "sign"):
            return None
        return self.one(f, a)

    def f_matlab(self, f, a):
        if f == "transpose" and len(a) == 1:
            return np.asarray(a[0]).T
        if f == "inv" and len(a) == 1:
            return inv(a[0])
        if f == "zeros" and len(a) == 2:
            return np.zeros((int(real(a[0])), int(real(a[1]))), dtype=complex)
        if f == "fabs":
            return None
        return self.one(f, a)

    def f_modelica(self, f, a):
        if f == "transpose" and len(a) == 1 and not is_s(a[0]):
            return a[0].T
        if f == "Modelica.Math.Matrices.inv" and len(a) == 1:
            return inv(a[0])
        if f == "Modelica.Math.Matrices.solve2" and len(a) == 2:
            return solve(*a)
        if f == "zeros" and len(a) == 2:
            return np.zeros((int(real(a[0])), int(real(a[1]))), dtype=complex)
        if f == "scalar" and len(a) == 1:
            return sc(a[0])
        if f == "vector" and len(a) == 1:
            return np.asarray(a[0]).reshape(-1)
        if f == "skew" and len(a) == 1:
            if np.ndim(a[0]) != 1:
                raise Bad("skew of a matrix")
            return skew(a[0])
        if f == "fabs":
            return None
        return self.one(f, a)
