"""Exact arithmetic for matrix entries.

A Poly is a polynomial with rational coefficients over named generators, kept in a
normal form modulo   I*I = -1,  r2*r2 = 2,  s(x)^2 = 1 - c(x)^2.
For independent real generators two entries are equal for all values of the
generators iff their normal forms coincide, so comparing normal forms decides the
obligation (this is the "ring" back end of the evidence files).

Angles are rational-linear forms in real generators plus a rational multiple of pi;
cos/sin of them are expanded into c(x), s(x), the cosine and sine of x/4.
"""
from fractions import Fraction
import math, cmath, random

I, R2 = "#I", "#r2"
ANGLE_DEN = 4


class PolyUnsupported(Exception):
    pass


def _mul_mono(a, b):
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    return d


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms=None):
        self.t = terms if terms is not None else {}
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        if isinstance(c, Poly):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            return Poly.from_float(c)
        if isinstance(c, complex):
            return Poly.const(c.real) + Poly.const(c.imag) * Poly.gen(I)
        c = Fraction(c)
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def from_float(c):
        return Poly.const(Fraction(c))

    @staticmethod
    def gen(name):
        return Poly({((name, 1),): Fraction(1)})

    # -- normal form
    @staticmethod
    def _norm(raw):
        """raw: iterable of (dict monomial, coeff)"""
        out = {}
        work = list(raw)
        while work:
            m, c = work.pop()
            if not c:
                continue
            red = None
            for g, e in m.items():
                if g == I and e >= 2:
                    red = (g, e); break
                if g == R2 and e >= 2:
                    red = (g, e); break
                if g.startswith("s:") and e >= 2:
                    red = (g, e); break
            if red is None:
                key = tuple(sorted((g, e) for g, e in m.items() if e))
                v = out.get(key, 0) + c
                if v:
                    out[key] = v
                else:
                    out.pop(key, None)
                continue
            g, e = red
            m2 = dict(m)
            m2[g] = e - 2
            if m2[g] == 0:
                del m2[g]
            if g == I:
                work.append((m2, -c))
            elif g == R2:
                work.append((m2, 2 * c))
            else:
                work.append((m2, c))
                m3 = dict(m2)
                cg = "c:" + g[2:]
                m3[cg] = m3.get(cg, 0) + 2
                work.append((m3, -c))
        return Poly(out)

    def __add__(self, o):
        o = Poly.const(o)
        d = dict(self.t)
        for k, v in o.t.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.const(o))

    def __rsub__(self, o):
        return Poly.const(o) + (-self)

    def __mul__(self, o):
        o = Poly.const(o)
        if not self.t or not o.t:
            return Poly()
        return Poly._norm((_mul_mono(a, b), x * y) for a, x in self.t.items() for b, y in o.t.items())
    __rmul__ = __mul__

    def inverse(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            names = dict(m)
            if set(names) <= {I, R2}:
                r = Poly.const(Fraction(1) / c)
                if names.get(I):
                    r = r * (-Poly.gen(I))
                if names.get(R2):
                    r = r * Poly.gen(R2) * Fraction(1, 2)
                return r
            if names and all(not g.startswith(("s:", "c:")) for g in names):
                return Poly({tuple(sorted((g, -e) for g, e in m)): Fraction(1) / c})
        # a + b*I with a, b in Q[r2] : rationalize
        if self.t and all(set(dict(m)) <= {I, R2} for m in self.t):
            conj = self.conj()
            n = self * conj          # in Q[r2]
            a = n.t.get((), Fraction(0)); b = n.t.get(((R2, 1),), Fraction(0))
            den = a * a - 2 * b * b
            if den:
                inv = (Poly.const(a) - Poly.gen(R2) * b) * (Fraction(1) / den)
                return conj * inv
        cj = self.conj()
        n = self * cj                # unit-modulus (or constant-modulus) expressions such as exp(i*theta)
        f = n.as_fraction()
        if f and cj is not self:
            return cj * (Fraction(1) / f)
        raise PolyUnsupported("division by a non-invertible symbolic expression")

    def __truediv__(self, o):
        return self * Poly.const(o).inverse()

    def __rtruediv__(self, o):
        return Poly.const(o) * self.inverse()

    def __pow__(self, n):
        if isinstance(n, Poly):
            c = n.as_fraction()
            if c is None:
                raise PolyUnsupported("symbolic exponent")
            n = c
        n = Fraction(n)
        if n == Fraction(1, 2):
            return sqrt(self)
        if n.denominator != 1:
            raise PolyUnsupported("fractional power")
        n = int(n)
        if n < 0:
            return self.inverse() ** (-n)
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def conj(self):
        d = {}
        for m, c in self.t.items():
            m2 = []
            for g, e in m:
                if g == I:
                    c = -c if e % 2 else c
                    m2.append((g, e))
                elif g.startswith("z:"):          # complex generator
                    m2.append(("zc:" + g[2:], e))
                elif g.startswith("zc:"):
                    m2.append(("z:" + g[3:], e))
                else:
                    m2.append((g, e))
            d[tuple(sorted(m2))] = c
        return Poly(d)

    def as_fraction(self):
        if not self.t:
            return Fraction(0)
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def gens(self):
        return {g for m in self.t for g, _ in m}

    def subs(self, mapping):
        out = Poly()
        for m, c in self.t.items():
            p = Poly.const(c)
            for g, e in m:
                p = p * (mapping[g] ** e if g in mapping else Poly({((g, e),): Fraction(1)}))
            out = out + p
        return out

    def __eq__(self, o):
        if isinstance(o, (int, float, complex, Fraction)):
            o = Poly.const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def evaluate(self, env):
        r = 0
        for m, c in self.t.items():
            v = complex(float(c))
            for g, e in m:
                v *= env(g) ** e
            r += v
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(f"{c}*" + "*".join(f"{g}^{e}" if e != 1 else g for g, e in m) if m else str(c)
                          for m, c in sorted(self.t.items(), key=str))


ONE, ZERO = Poly.const(1), Poly()
IM = Poly.gen(I)
PI = "#pi"
_ROOT = {0: (ONE, ZERO), 1: (Poly.gen(R2) * Fraction(1, 2), Poly.gen(R2) * Fraction(1, 2)), 2: (ZERO, ONE),
         3: (Poly.gen(R2) * Fraction(-1, 2), Poly.gen(R2) * Fraction(1, 2)), 4: (-ONE, ZERO),
         5: (Poly.gen(R2) * Fraction(-1, 2), Poly.gen(R2) * Fraction(-1, 2)), 6: (ZERO, -ONE),
         7: (Poly.gen(R2) * Fraction(1, 2), Poly.gen(R2) * Fraction(-1, 2))}


def sqrt(p):
    f = Poly.const(p).as_fraction()
    if f is None or f < 0:
        raise PolyUnsupported(f"sqrt of {p}")
    for base, mul in ((f, ONE), (f / 2, Poly.gen(R2))):
        n, d = math.isqrt(base.numerator), math.isqrt(base.denominator)
        if n * n == base.numerator and d * d == base.denominator:
            return mul * Fraction(n, d)
    raise PolyUnsupported(f"sqrt of {f}")


def _cos_sin_multiple(name, k):
    """cos(k u), sin(k u) with u = name/ANGLE_DEN, k an integer."""
    c, s = Poly.gen("c:" + name), Poly.gen("s:" + name)
    neg = k < 0
    rc, rs = ONE, ZERO
    for _ in range(abs(k)):
        rc, rs = rc * c - rs * s, rs * c + rc * s
    return rc, (-rs if neg else rs)


def _lin(m):
    """name of the linear 'atom' of a monomial in an angle (products of symbols are atoms)"""
    return "*".join(f"{g}^{e}" if e != 1 else g for g, e in m)


def cos_sin(p):
    """(cos p, sin p) for a real angle expression p."""
    p = Poly.const(p)
    rc, rs = ONE, ZERO
    for m, c in p.t.items():
        names = dict(m)
        if I in names or R2 in names or any(g.startswith(("z:", "zc:", "c:", "s:")) for g in names):
            raise PolyUnsupported(f"angle {p}")
        if names == {PI: 1}:
            k = c * 4
            if k.denominator != 1:
                raise PolyUnsupported(f"angle {p}")
            tc, ts = _ROOT[int(k) % 8]
        elif not names:
            raise PolyUnsupported("numeric angle without pi")
        elif PI in names:
            raise PolyUnsupported(f"angle {p}")
        else:
            k = c * ANGLE_DEN
            if k.denominator != 1:
                raise PolyUnsupported(f"angle {p} finer than 1/{ANGLE_DEN}")
            tc, ts = _cos_sin_multiple(_lin(m), int(k))
        rc, rs = rc * tc - rs * ts, rs * tc + rc * ts
    return rc, rs


def exp(p):
    """exp of a purely imaginary expression."""
    p = Poly.const(p)
    if not p.t:
        return ONE
    ang = p * (-IM)          # p = I*ang
    if I in ang.gens():
        raise PolyUnsupported(f"exp of {p}")
    c, s = cos_sin(ang)
    return c + IM * s


def random_env(seed=0):
    rng = random.Random(seed)
    base = {}

    def env(g):
        if g == I:
            return 1j
        if g == R2:
            return math.sqrt(2)
        if g == PI:
            return math.pi
        if g.startswith(("c:", "s:")):
            a = base.setdefault("ang:" + g[2:], rng.uniform(-3, 3))
            return math.cos(a / ANGLE_DEN) if g[0] == "c" else math.sin(a / ANGLE_DEN)
        if g.startswith("zc:"):
            return env("z:" + g[3:]).conjugate()
        if g.startswith("z:"):
            return base.setdefault(g, complex(rng.uniform(-1, 1), rng.uniform(-1, 1)))
        return base.setdefault("ang:" + g, rng.uniform(-3, 3))
    env.base = base
    return env
