"""Texts denoted by extracted string terms at a valuation: operands that are printed
recursively appear as place holders, loops that build text are evaluated from their
extracted transfer function."""
import numpy as np

import engine as EN
import sem
from engine import I, S
from sem import World, Unknown, Skip, V


class Refused(Exception):
    """the function reports an error instead of text"""


def is_strterm(t):
    return t[0] in ("s", "char", "cat", "rep", "str", "strset") or t[0] == "call" and t[1].split("::")[-1] in ("str", "print", "error", "getName", "toString")


class StrWorld(World):
    PRINT = ("Printer::print", "print")

    def init(self):
        self.holes = {}
        self.env = {}
        self.folds = {}
        self.names = {}
        return self

    def hole(self, x):
        x = self.sub(x)
        if x[0] in ("arg", "at") and x[2][0] != "int":
            x = (x[0], x[1], I(self.num_int(x[2])))
        c = self.canon(x)
        for k, v in self.holes.items():
            if v == c:
                return k
        n = "H%dq" % len(self.holes)
        self.holes[n] = c
        return n

    def sub(self, t):
        m = dict(self.env)
        m.update(self.idxmap())
        return EN.subst(t, m) if m else t

    def text(self, t):
        t = self.sub(t)
        k = t[0]
        if k in ("s", "char"):
            return t[1]
        if k == "cat":
            return "".join(self.text(x) for x in t[1])
        if k == "call":
            n = t[1].split("::")[-1]
            if n == "error":
                raise Refused()
            if t[1] in self.PRINT or n == "print" and len(t[3]) == 1:
                return self.hole(t[3][0])
            if n == "str" and len(t[3]) == 1:
                return self.num_text(t[3][0])
            if n in ("getName", "name"):
                return self.name_of(t[2])
            if n in ("substr", "insert"):
                s = self.text(t[2])
                a = [self.num_int(x) for x in t[3] if not is_strterm(x)]
                if n == "substr":
                    return s[a[0]:] if len(a) == 1 else s[a[0]:a[0] + a[1]]
                return s[:a[0]] + self.text(t[3][1]) + s[a[0]:]
            return self.other_text(t)
        if k == "strset":
            x = self.text(t[1])
            c = t[3]
            if c[0] not in ("char", "int"):
                raise Unknown("character")
            i = self.text_int(t[2])
            if not 0 <= i < len(x):
                raise Skip("index")
            return x[:i] + (c[1] if c[0] == "char" else chr(c[1])) + x[i + 1:]
        if k == "str":
            return self.num_text(t[1])
        if k == "fld" and t[2] == "m_name":
            return self.name_of(t[1])
        if k == "rep":
            L, cur, init = self.fold(t[1])
            x = cur[t[2]]
            return x[1][len(init[t[2]][1]):]
        if k == "loopval":
            L, cur, init = self.fold(t[1])
            x = cur[t[2]]
            if x[0] == "s":
                return x[1]
        if k == "seqv" and t[1] and t[1][0][0] == "ctor" and len(t[1]) == 1 and len(t[1][0][2]) == 1:
            return self.text(t[1][0][2][0])
        return self.other_text(t)

    def other_text(self, t):
        raise Unknown("text " + EN.show(t)[:80])

    def name_of(self, o):
        return self.hole(o)

    def num_text(self, x):
        x = self.sub(x)
        if x[0] == "bool":
            return "true" if x[1] else "false"
        v = self.val(x)
        if not v.scalar() or abs(v.v[0, 0].imag) > 0:
            raise Unknown("str of a non-number")
        return self.fmt(v.v[0, 0].real)

    @staticmethod
    def fmt(r):
        # setprecision(digits10) stream output
        return "%.15g" % r

    def strval(self, x):
        try:
            return self.text(x)
        except Unknown:
            return None

    # -- loops
    def term(self, t):
        """normal form of a loop-carried value"""
        t = self.sub(t)
        if EN.is_const(t) and t[0] != "char":
            return t
        if is_strterm(t):
            return S(self.text(t))
        if t[0] in ("loopval", "rep"):
            L, cur, init = self.fold(t[1])
            return cur[t[2]] if t[0] == "loopval" else S(self.text(t))
        if t[0] in ("eq", "lt", "not", "and", "or", "truth", "deq"):
            return ("bool", self.truth(t))
        if t[0] in ("op", "num", "numel", "dim", "size", "nargs", "ndim", "fld", "arg", "at", "trunc"):
            if t[0] in ("arg", "at"):
                return t
            v = self.val(t)
            if v.scalar():
                r = v.v[0, 0].real
                return I(int(r)) if r == int(r) else ("real", r)
        return t

    def fold(self, lid):
        L = self.E.loops[lid]
        key = (lid, tuple(sorted((k, v) for k, v in self.env.items())), tuple(sorted(self.idx.items())))
        if key in self.folds:
            return self.folds[key]
        kids = {L.kid[k]: (k, init, phi) for k, (init, phi) in L.phis.items()}
        cur, init0 = {}, {}
        for kid, (k, init, phi) in kids.items():
            if k[0] == "H":
                continue
            try:
                cur[kid] = self.term(init)
            except (Unknown, Skip):
                cur[kid] = self.sub(init)
            init0[kid] = cur[kid]
        for i in self.comp_range(L):
            self.idx[lid] = i
            saved = {}
            for kid, (k, init, phi) in kids.items():
                if kid in cur:
                    saved[phi] = self.env.get(phi)
                    self.env[phi] = cur[kid]
            tr = self.pick2(L)
            nxt = {}
            for kid in cur:
                if kid in tr[1]:
                    nxt[kid] = self.term(tr[1][kid])
            for phi, o in saved.items():
                if o is None:
                    self.env.pop(phi, None)
                else:
                    self.env[phi] = o
            cur.update(nxt)
            if tr[3] == "break":
                break
            if tr[3] is not None:
                raise Unknown("loop exit")
        self.idx.pop(lid, None)
        self.folds[key] = (L, cur, init0)
        return self.folds[key]

    def pick2(self, L):
        live = []
        for tr in L.trans:
            ok = True
            for a, b in tr[0]:
                try:
                    g = self.loop_guard(self.sub(a))
                except Unknown:
                    g = None
                if g is None:
                    raise Unknown("loop guard " + EN.show(a)[:80])
                if g != b:
                    ok = False
                    break
            if ok:
                live.append(tr)
        if len(live) != 1:
            raise Unknown("loop branches")
        return live[0]

    def loop_guard(self, a):
        if a[0] == "eq" and "type" in (a[1][0], a[2][0]):
            p, q = (a[1], a[2]) if a[1][0] == "type" else (a[2], a[1])
            if q[0] in ("int", "enum"):
                ts = self.tags(p[1])
                v = EN.cval(q)
                return v in ts if len(ts) == 1 or v not in ts else None
        return self.guard0(a)

    def loopval(self, t):
        L, cur, init = self.fold(t[1])
        return self.val(cur[t[2]])

    def guard0(self, a):
        if a[0] == "truth" and a[1][0] == "loopval":
            x = self.fold(a[1][1])[1][a[1][2]]
            if x[0] in ("bool", "int"):
                return bool(x[1])
        if a[0] == "truth" and a[1][0] in ("bool", "int"):
            return bool(a[1][1])
        if a[0] in ("eq", "lt"):
            for p, q in ((a[1], a[2]), (a[2], a[1])):
                r = self.strfact(a[0], p, q, p is a[2])
                if r is not None:
                    return r
        return World.guard0(self, a)

    def text_int(self, t):
        r = self.strnum(t)
        return self.num_int(t) if r is None else r

    def strfact(self, op, p, q, swapped):
        """find/find_first_of/at/empty comparisons of texts"""
        num = self.strnum
        if p[0] == "charat" or p[0] == "call" and p[1] in ("find", "find_first_of", "size", "length", "at") or op == "eq" and is_strterm(p) and is_strterm(q):
            if is_strterm(p) and is_strterm(q) and not (p[0] == "char" or q[0] == "char"):
                return self.text(p) == self.text(q)
            x, y = num(p), num(q)
            if x is None or y is None:
                return None
            if op == "eq":
                return x == y
            return (y < x) if swapped else (x < y)
        return None

    def strnum(self, t):
        """number denoted by a query on a text (None: not such a query)"""
        if t[0] == "charat":
            s = self.strval(t[1])
            i = self.text_int(t[2])
            return ord(s[i]) if s is not None and 0 <= i < len(s) else None
        if t[0] == "call" and t[1] in ("find", "find_first_of", "size", "length", "at") and t[2] is not None:
            s = self.strval(t[2])
            if s is None:
                return None
            if t[1] in ("size", "length"):
                return len(s)
            if t[1] == "at":
                i = self.num_int(t[3][0])
                return ord(s[i]) if i < len(s) else None
            y = self.strval(t[3][0])
            if y is None:
                return None
            if t[1] == "find":
                return s.find(y)
            ix = [s.find(c) for c in y if c in s]
            return min(ix) if ix else -1
        if t[0] == "glob" and "npos" in str(t[1]):
            return -1
        if t[0] == "char":
            return ord(t[1])
        if t[0] == "int":
            return t[1]
        return None
