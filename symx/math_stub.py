"""math and complex for proxy numbers: falls back to the real functions for
plain numbers."""
import math as _m
import types

from . import engine as E


def _sym(*xs):
    return any(isinstance(x, (E.R, E.B)) for x in xs)


def module():
    m = types.ModuleType("math")
    for k in dir(_m):
        if not k.startswith("__"):
            setattr(m, k, getattr(_m, k))

    def sqrt(x):
        return E.sqrt(x) if _sym(x) else _m.sqrt(x)

    def hypot(*xs):
        if not _sym(*xs):
            return _m.hypot(*xs)
        return E.sqrt(sum(x * x for x in xs))

    def fabs(x):
        return abs(x) if _sym(x) else _m.fabs(x)

    def dist(p, q):
        return hypot(*[a - b for a, b in zip(p, q)])

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not _sym(a, b, rel_tol, abs_tol):
            return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if bool(a == b):
            return True
        return bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))

    def fsum(xs):
        xs = list(xs)
        return sum(xs) if _sym(*xs) else _m.fsum(xs)

    def isfinite(x):
        return True if _sym(x) else _m.isfinite(x)

    def isnan(x):
        return False if _sym(x) else _m.isnan(x)

    def isinf(x):
        return False if _sym(x) else _m.isinf(x)

    def copysign(a, b):
        if not _sym(a, b):
            return _m.copysign(a, b)
        return abs(a) if bool(b >= 0) else -abs(a)

    def pow_(a, b):
        return a ** b if _sym(a, b) else _m.pow(a, b)

    m.sqrt, m.hypot, m.fabs, m.dist, m.isclose, m.fsum = sqrt, hypot, fabs, dist, isclose, fsum
    m.isfinite, m.isnan, m.isinf, m.copysign, m.pow = isfinite, isnan, isinf, copysign, pow_
    return m


class SymComplex:
    __slots__ = ("real", "imag")

    def __init__(self, re=0, im=0):
        self.real, self.imag = re, im

    @staticmethod
    def of(x):
        if isinstance(x, (SymComplex, complex)):
            return SymComplex(x.real, x.imag)
        return SymComplex(x, 0)

    def __add__(self, o):
        o = self.of(o)
        return SymComplex(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __sub__(self, o):
        return self + (-self.of(o))

    def __rsub__(self, o):
        return self.of(o) + (-self)

    def __mul__(self, o):
        o = self.of(o)
        return SymComplex(self.real * o.real - self.imag * o.imag,
                          self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, E.R, E.Fraction)):
            return SymComplex(self.real / o, self.imag / o)
        o = self.of(o)
        q = o.real * o.real + o.imag * o.imag
        if isinstance(q, E.R) and bool(q == 0):
            raise ZeroDivisionError("complex division by zero")
        return SymComplex((self.real * o.real + self.imag * o.imag) / q,
                          (self.imag * o.real - self.real * o.imag) / q)

    def __rtruediv__(self, o):
        return self.of(o) / self

    def __abs__(self):
        return E.sqrt(self.real * self.real + self.imag * self.imag)

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __pow__(self, k):
        r = SymComplex(1, 0)
        for _ in range(int(k)):
            r = r * self
        return r

    def __eq__(self, o):
        o = self.of(o)
        return E.And(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return E.Not(self == o)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 7


def make_complex(re=0, im=0):
    if isinstance(re, (SymComplex,)):
        return re
    if _sym(re, im):
        return SymComplex(re, im)
    return complex(re, im)
