"""Truncated power series in several variables, and matrices of them (random interpretation of terms)."""
import numpy as np


class Order(Exception):
    """more derivatives were taken than the series carry"""


class Ring:
    def __init__(self, names, order):
        self.names, self.order = list(names), order
        n = len(self.names)
        mons = []

        def go(i, left, cur):
            if i == n:
                mons.append(tuple(cur))
                return
            for k in range(left + 1):
                go(i + 1, left - k, cur + [k])
        go(0, order, [])
        mons.sort(key=lambda m: (sum(m), m))
        self.mons, self.N = mons, len(mons)
        self.pos = {m: i for i, m in enumerate(mons)}
        ia, ib, ic = [], [], []
        for i, a in enumerate(mons):
            for j, b in enumerate(mons):
                if sum(a) + sum(b) <= order:
                    ia.append(i)
                    ib.append(j)
                    ic.append(self.pos[tuple(x + y for x, y in zip(a, b))])
        o = np.argsort(ic, kind="stable")
        self.ia, self.ib, self.ic = np.array(ia)[o], np.array(ib)[o], np.array(ic)[o]
        self.starts = np.searchsorted(self.ic, np.arange(self.N))
        self.deg = np.array([sum(m) for m in mons])
        self.d = []
        for v in range(n):
            src, dst, fac = [], [], []
            for i, m in enumerate(mons):
                if m[v]:
                    k = list(m)
                    k[v] -= 1
                    src.append(i)
                    dst.append(self.pos[tuple(k)])
                    fac.append(m[v])
            self.d.append((np.array(src, int), np.array(dst, int), np.array(fac, float)))

    def mul(self, a, b):
        p = a[..., self.ia] * b[..., self.ib]
        return np.add.reduceat(p, self.starts, axis=-1)

    def const(self, x):
        a = np.asarray(x, float)
        out = np.zeros(a.shape + (self.N,))
        out[..., 0] = a
        return out

    def var(self, name, value):
        out = np.zeros((1, 1, self.N))
        out[..., 0] = value
        m = [0] * len(self.names)
        m[self.names.index(name)] = 1
        out[..., self.pos[tuple(m)]] = 1
        return M(self, out)

    def rand(self, rng, r, c, over=None, scale=0.5):
        out = rng.uniform(-1, 1, (r, c, self.N)) * scale
        if over is not None:
            keep = np.array([all(m[i] == 0 for i, n in enumerate(self.names) if n not in over) for m in self.mons])
            out[..., ~keep] = 0
        return M(self, out)

    def mat(self, x):
        a = np.asarray(x, float)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        return M(self, self.const(a))


class M:
    """matrix of series; 1x1 is a scalar"""
    __slots__ = ("R", "a", "o", "kind", "elem")

    def __init__(self, R, a, o=None, kind=None):
        self.R, self.a = R, a
        self.o = R.order if o is None else o
        self.kind = kind

    @property
    def shape(self):
        return self.a.shape[:2]

    def lift(self, x):
        if isinstance(x, M):
            return x
        return self.R.mat(x)

    def scalar(self):
        return self.a.shape[:2] == (1, 1)

    def __add__(self, x):
        x = self.lift(x)
        if self.shape != x.shape:
            if not np.any(x.a) and x.scalar():
                return self
            if not np.any(self.a) and self.scalar():
                return x
            raise ValueError("shapes of a sum")
        return M(self.R, self.a + x.a, min(self.o, x.o))

    __radd__ = __add__

    def __neg__(self):
        return M(self.R, -self.a, self.o)

    def __sub__(self, x):
        return self + (-self.lift(x))

    def __rsub__(self, x):
        return self.lift(x) + (-self)

    def __mul__(self, x):
        x = self.lift(x)
        o = min(self.o, x.o)
        if self.scalar() or x.scalar():
            return M(self.R, self.R.mul(self.a, x.a), o)
        if self.shape[1] != x.shape[0]:
            raise ValueError("shapes of a product")
        out = np.zeros((self.shape[0], x.shape[1], self.R.N))
        for k in range(self.shape[1]):
            out += self.R.mul(self.a[:, k:k + 1], x.a[k:k + 1, :])
        return M(self.R, out, o)

    def __rmul__(self, x):
        return self.lift(x) * self

    def T(self):
        return M(self.R, np.swapaxes(self.a, 0, 1).copy(), self.o)

    def func(self, f):
        """f(series): values of the derivatives f(c), f'(c), f''(c).. given by f(c, k)"""
        if not self.scalar():
            raise ValueError("function of a matrix")
        c = float(self.a[0, 0, 0])
        d = M(self.R, self.a.copy(), self.o)
        d.a[..., 0] = 0
        out = self.R.mat(f(c, 0))
        p = self.R.mat(1.0)
        fac = 1.0
        for k in range(1, self.R.order + 1):
            p = p * d
            fac *= k
            out = out + p * (f(c, k) / fac)
        out.o = self.o
        return out

    def sin(self):
        return self.func(lambda c, k: [np.sin(c), np.cos(c), -np.sin(c), -np.cos(c)][k % 4])

    def cos(self):
        return self.func(lambda c, k: [np.cos(c), -np.sin(c), -np.cos(c), np.sin(c)][k % 4])

    def pow(self, e):
        if isinstance(e, (int, np.integer)) or float(e).is_integer() and 0 <= e <= 6:
            e = int(e)
            if e >= 0:
                out = None
                for _ in range(e):
                    out = self if out is None else out * self
                return out if out is not None else self.R.mat(1.0)
            return self.inv().pow(-e)

        def f(c, k):
            v = c ** (e - k) if c > 0 else float("nan")
            for i in range(k):
                v *= e - i
            return v
        return self.func(f)

    def inv(self):
        if self.scalar():
            def f(c, k):
                v = 1.0 / c ** (k + 1)
                for i in range(1, k + 1):
                    v *= -i
                return v
            return self.func(f)
        a0 = np.linalg.inv(self.a[..., 0])
        i0 = self.R.mat(a0)
        d = M(self.R, self.a.copy(), self.o)
        d.a[..., 0] = 0
        n = -(i0 * d)
        out, p = i0, i0
        for k in range(self.R.order):
            p = n * p
            out = out + p
        out.o = self.o
        return out

    def __truediv__(self, x):
        x = self.lift(x)
        if not x.scalar():
            raise ValueError("division by a matrix")
        return self * x.inv()

    def __rtruediv__(self, x):
        return self.lift(x) / self

    def series(self, df):
        """function given by its derivative: value at the constant term, df(series) the derivative as a series"""
        raise NotImplementedError

    def atan(self):
        return taylor(self, np.arctan)

    def diff(self, v):
        if self.o <= 0:
            raise Order()
        src, dst, fac = self.R.d[v]
        out = np.zeros_like(self.a)
        out[..., dst] = self.a[..., src] * fac
        return M(self.R, out, self.o - 1)

    def get(self, i, j):
        return M(self.R, self.a[i:i + 1, j:j + 1], self.o)

    def value(self):
        return self.a[..., 0]


def numeric_derivs(f, c, n):
    """derivatives of an elementary function through complex Cauchy integrals"""
    import math
    r = 1e-1
    m = 64
    z = c + r * np.exp(2j * np.pi * np.arange(m) / m)
    v = f(z)
    co = np.fft.fft(v) / m
    return [float((co[k] / r ** k).real) * math.factorial(k) for k in range(n + 1)]


def taylor(x, f):
    c = float(x.a[0, 0, 0])
    d = numeric_derivs(f, c, x.R.order)
    d[0] = float(np.real(f(complex(c))))
    return x.func(lambda c, k: d[k])


def vstack(rows):
    R = None
    for r in rows:
        for x in r:
            if isinstance(x, M):
                R = x.R
    rows = [[x if isinstance(x, M) else R.mat(float(x)) for x in r] for r in rows]
    o = min(x.o for r in rows for x in r)
    return M(R, np.concatenate([np.concatenate([x.a for x in r], axis=1) for r in rows], axis=0), o)


def skew(v):
    z = v.R.mat(0.0)
    if v.shape == (1, 3):
        v = v.T()
    if v.shape != (3, 1):
        raise ValueError("skew of a matrix")
    x, y, w = v.get(0, 0), v.get(1, 0), v.get(2, 0)
    return vstack([[z, -w, y], [w, z, -x], [-y, x, z]])


def axial(S):
    return vstack([[(S.get(2, 1) - S.get(1, 2)) * 0.5], [(S.get(0, 2) - S.get(2, 0)) * 0.5], [(S.get(1, 0) - S.get(0, 1)) * 0.5]])


def rot(axis, q):
    """rotation about a unit axis (constant numbers) by the scalar series q, mapping child coordinates to parent's"""
    R = q.R
    v = R.mat(axis)
    s, c = q.sin(), q.cos()
    K = skew(v)
    return R.mat(np.eye(3)) + K * s + (K * K) * (R.mat(1.0) - c)
