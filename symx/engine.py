"""Symbolic execution of ordinary Python code over proxy numbers.

 - R is a symbolic real: a fraction of integer polynomials over the symbols of
   the exploration, extended by square roots.
 - B is a symbolic truth value.  Python asks for its bool() at a branch; the
   solver (z3) then decides which of the two directions the path condition
   admits.  Where both are feasible the process forks, and each copy continues
   with one direction added to its path condition.
 - require() is an obligation: the solver is asked for values of all symbols
   that satisfy the path condition and violate it.
"""
import fcntl
import json
import os
import signal
import sys
import time
import traceback
from fractions import Fraction
from math import isqrt

import z3

from . import poly as P
from .poly import T

MODE = {"const": "exact"}


# ----------------------------------------------------------------- numbers --

def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, bool)):
        return Fraction(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Inf(x)
        return Fraction(repr(x))
    raise TypeError(type(x))


class Inf(Exception):
    pass


class PathAbort(BaseException):
    """Ends the current path (assumption failed, or nothing left to explore)."""


class PathTimeout(BaseException):
    pass


_factor_polys = {}


def _mk(n, d, f):
    """Normalises n / (d * prod f)."""
    if not n:
        return R0 if MODE["const"] == "exact" else 0.0
    if f:
        g = None
        for k, e in f.items():
            q = _factor_polys[k]
            e0 = e
            while e:
                t = P.exquo(n, q)
                if t is None:
                    break
                n = t
                e -= 1
            if e != e0:
                if g is None:
                    g = dict(f)
                if e:
                    g[k] = e
                else:
                    del g[k]
        if g is not None:
            f = g
    if d != 1:
        c = P.content(n)
        from math import gcd
        h = gcd(c, d)
        if h != 1:
            n = {m: v // h for m, v in n.items()}
            d //= h
    if not f and MODE["const"] == "float":
        if P.is_const(n):
            return n.get(0, 0) / d
        if d.bit_length() > 160:
            # concrete footprints are computed in floating point anyway
            n = {k: v for k, v in ((k, ((v << 121) // d + 1) >> 1) for k, v in n.items()) if v}
            d = 1 << 120
            if not n:
                return 0.0
    r = object.__new__(R)
    r.n, r.d, r.f = n, d, f
    return r


def lift(x):
    """Any number as an R (never demoted)."""
    if isinstance(x, R):
        return x
    if isinstance(x, B):
        x = bool(x)
    q = to_fraction(x)
    r = object.__new__(R)
    r.n, r.d, r.f = P.const(q.numerator), q.denominator, {}
    return r


def _mulf(f, g):
    if not g:
        return f
    if not f:
        return g
    h = dict(f)
    for k, e in g.items():
        h[k] = h.get(k, 0) + e
    return h


def _times(n, f):
    for k, e in f.items():
        for _ in range(e):
            n = P.mul(n, _factor_polys[k])
    return n


class R:
    __slots__ = ("n", "d", "f")

    def __hash__(self):
        return 7

    # arithmetic
    def __add__(self, o):
        if not isinstance(o, R):
            try:
                o = lift(o)
            except Inf as e:
                return e.args[0]
            except TypeError:
                return NotImplemented
        if not o.n:
            return self
        if not self.n:
            return o if MODE["const"] == "exact" or not o.isconst() else _mk(o.n, o.d, o.f)
        if self.f == o.f:
            if self.d == o.d:
                return _mk(P.add(self.n, o.n), self.d, self.f)
            return _mk(P.add(P.scale(self.n, o.d), P.scale(o.n, self.d)), self.d * o.d, self.f)
        a, b, L = {}, {}, dict(self.f)
        for k, e in o.f.items():
            x = self.f.get(k, 0)
            if e > x:
                a[k] = e - x
                L[k] = e
        for k, e in self.f.items():
            x = o.f.get(k, 0)
            if e > x:
                b[k] = e - x
        n = P.add(P.scale(_times(self.n, a), o.d), P.scale(_times(o.n, b), self.d))
        return _mk(n, self.d * o.d, L)

    __radd__ = __add__

    def __neg__(self):
        r = object.__new__(R)
        r.n, r.d, r.f = P.neg(self.n), self.d, self.f
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, (R, int, float, Fraction, B)):
            return self + (-o if not isinstance(o, B) else -int(o))
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, R):
            try:
                o = lift(o)
            except Inf as e:
                s = sgn_decide(self)
                return e.args[0] * s
            except TypeError:
                return NotImplemented
        if not o.n or not self.n:
            return R0 if MODE["const"] == "exact" else 0.0
        return _mk(P.mul(self.n, o.n), self.d * o.d, _mulf(self.f, o.f))

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        n = self.n
        top = {0: self.d}
        # rationalise: remove sqrt symbols from the denominator by conjugation
        guard = 0
        while P.has_sqrt(n):
            guard += 1
            if guard > 12:
                raise RuntimeError("rationalisation too deep")
            i = max(x for x in P.symbols(n) if T.syms[x].kind == "sqrt")
            sh = P.BITS * i
            A = {m: c for m, c in n.items() if not (m >> sh) & P.FIELD}
            Bp = {m - (1 << sh): c for m, c in n.items() if (m >> sh) & P.FIELD}
            if not A:
                top = P.mul(top, {1 << sh: 1})
                n = P.mul(Bp, T.syms[i].f)
            else:
                conj = P.sub(A, P.mul(Bp, {1 << sh: 1}))
                top = P.mul(top, conj)
                n = P.sub(P.mul(A, A), P.mul(P.mul(Bp, Bp), T.syms[i].f))
                n = P.reduce(n)
        c, fl = P.factor(n)
        if not c:
            raise ZeroDivisionError("division by zero")
        top = _times(top, self.f)
        if c < 0:
            top, c = P.neg(top), -c
        g = {}
        for q, e in fl:
            k = P.key(q)
            _factor_polys[k] = q
            g[k] = e
        return _mk(top, c, g)

    def __truediv__(self, o):
        if isinstance(o, R):
            i = o.inv()
            return self * i
        if isinstance(o, B):
            o = int(o)
        if isinstance(o, (int, float, Fraction)):
            try:
                q = to_fraction(o)
            except Inf:
                return 0.0
            if q == 0:
                raise ZeroDivisionError("division by zero")
            return self * (1 / q)
        return NotImplemented

    def __rtruediv__(self, o):
        return self.inv() * o

    def __pow__(self, k):
        if isinstance(k, R):
            if not k.isconst():
                return NotImplemented
            k = Fraction(k.n.get(0, 0), k.d)
        if k == 0.5:
            return sqrt(self)
        if k != int(k):
            return NotImplemented
        k = int(k)
        r = lift(1)
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else 1 / r

    def __abs__(self):
        if self.isconst():
            return self if self.n.get(0, 0) >= 0 else -self
        return self if bool(self >= 0) else -self

    def isconst(self):
        return not self.f and P.is_const(self.n)

    def cval(self):
        return Fraction(self.n.get(0, 0), self.d)

    # comparisons
    def _cmp(self, o, op):
        if not isinstance(o, R):
            if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
                if o != o:
                    return op == "!="
                big = o > 0
                return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
            try:
                o = lift(o)
            except TypeError:
                return NotImplemented
        MODE_save = MODE["const"]
        MODE["const"] = "exact"
        try:
            x = self - o
        finally:
            MODE["const"] = MODE_save
        return relation(x, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(self != 0)

    # concretising conversions: the path continues with one witness value only
    def _concrete(self):
        if self.isconst():
            return self.cval()
        return CTX().concretize(self)

    def __float__(self):
        return float(self._concrete())

    def __int__(self):
        return int(self._concrete())

    def __round__(self, nd=None):
        return round(float(self._concrete()), nd) if nd is not None else round(self._concrete())

    def __floor__(self):
        import math
        return math.floor(self._concrete())

    def __ceil__(self):
        import math
        return math.ceil(self._concrete())

    def __trunc__(self):
        return int(self._concrete())

    def __floordiv__(self, o):
        return self.__truediv__(o).__floor__()

    def __mod__(self, o):
        q = (self / o)
        q = q.__floor__() if isinstance(q, R) else q // 1
        return self - q * o

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        s = P.show(self.n)
        if self.d != 1 or self.f:
            s = "(%s)/(%s)" % (s, "*".join([str(self.d)] + ["(%s)^%d" % (P.show(_factor_polys[k]), e) for k, e in self.f.items()]))
        return "R<%s>" % s

    def is_integer(self):
        return self._concrete().denominator == 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self


R0 = object.__new__(R)
R0.n, R0.d, R0.f = {}, 1, {}


def sgn_decide(x):
    if bool(x > 0):
        return 1
    if bool(x < 0):
        return -1
    return 0


def sqrt(x):
    """Non-negative square root.  The argument is taken to be >= 0 when it is a
    sum of squares; otherwise the solver decides and ValueError is raised."""
    if not isinstance(x, (R, B)):
        if MODE["const"] == "float":
            import math
            return math.sqrt(x)
        x = lift(x)
    if not x.n:
        return R0 if MODE["const"] == "exact" else 0.0
    if x.isconst():
        if x.n[0] < 0:
            raise ValueError("math domain error")
    # sqrt(n / (d f)) = sqrt(n d f) / |d f|
    odd = {k: 1 for k, e in x.f.items() if e & 1}
    inner = P.scale(_times(x.n, odd), x.d)
    den = {k: (e + 1) // 2 for k, e in x.f.items()}
    c, fl = P.factor(inner)
    out = {0: 1}
    rest = {0: 1}
    # integer part
    neg = c < 0
    c = abs(c)
    sq, fr = _square_part(c)
    out = P.scale(out, sq)
    # c = sq^2 * fr
    absfac = []
    for q, e in fl:
        if e >= 2:
            absfac.append((q, e // 2))
        if e & 1:
            rest = P.mul(rest, q)
    if neg:
        rest = P.neg(rest)
    val = _mk_exact(out, x.d, den)
    for q, e in absfac:
        y = _mk_exact(q, 1, {})
        if P.has_sqrt(q) or e & 1:
            y = abs(y)
        for _ in range(e):
            val = val * y
    # the denominators den are taken with their absolute value
    for k, e in den.items():
        if e & 1:
            if not bool(_mk_exact(_factor_polys[k], 1, {}) > 0):
                val = -val
    if fr != 1:
        for pr in _primes(fr):
            val = val * _sqrt_symbol({0: pr})
    if not (len(rest) == 1 and rest.get(0) == 1):
        # one symbol per square-free radicand
        if P.is_const(rest):
            raise ValueError("math domain error")
        y = _sqrt_symbol(rest)
        val = val * y
    if isinstance(val, R):
        return _mk(val.n, val.d, val.f)
    return val


def _mk_exact(n, d, f):
    s = MODE["const"]
    MODE["const"] = "exact"
    try:
        return _mk(n, d, f)
    finally:
        MODE["const"] = s


def _sqrt_symbol(f):
    k = P.key(f)
    s = T.sqrt_by_f.get(k)
    if s is None:
        s = T.new("s%d" % len(T.syms), "sqrt", dict(f))
        T.sqrt_by_f[k] = s
        c = CTX()
        if c is not None:
            c.new_sqrt(s)
    r = object.__new__(R)
    r.n, r.d, r.f = P.var(s), 1, {}
    return r


def _square_part(c):
    r = isqrt(c)
    if r * r == c:
        return r, 1
    sq = 1
    p = 2
    m = c
    fr = 1
    while p * p <= m and p < 2000:
        e = 0
        while m % p == 0:
            m //= p
            e += 1
        sq *= p ** (e // 2)
        if e & 1:
            fr *= p
        p += 1
    r = isqrt(m)
    if r * r == m:
        sq *= r
    else:
        fr *= m
    return sq, fr


def _primes(c):
    out = []
    p = 2
    while p * p <= c and p < 2000:
        while c % p == 0:
            out.append(p)
            c //= p
        p += 1
    if c > 1:
        out.append(c)
    return out


# ------------------------------------------------------------- conditions --

class B:
    """Symbolic truth value: kind in c (const), p (polynomial atom), and, or, not, xor."""
    __slots__ = ("k", "a", "op", "_key")

    def __init__(self, k, a, op=None):
        self.k, self.a, self.op = k, a, op
        self._key = None

    def key(self):
        if self._key is None:
            if self.k == "c":
                self._key = ("c", self.a)
            elif self.k == "p":
                self._key = ("p", P.key(self.a), self.op)
            elif self.k == "not":
                self._key = ("not", self.a.key())
            else:
                self._key = (self.k,) + tuple(x.key() for x in self.a)
        return self._key

    def __bool__(self):
        if self.k == "c":
            return self.a
        return CTX().decide(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return Xor(self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, B)):
            return Not(Xor(self, o))
        if isinstance(o, (int, float, R, Fraction)):
            return int(self) == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, B)):
            return Xor(self, o)
        if isinstance(o, (int, float, R, Fraction)):
            return int(self) != o
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __neg__(self):
        return -int(self)

    def __lt__(self, o):
        return int(self) < (int(o) if isinstance(o, B) else o)

    def __gt__(self, o):
        return int(self) > (int(o) if isinstance(o, B) else o)

    def __le__(self, o):
        return int(self) <= (int(o) if isinstance(o, B) else o)

    def __ge__(self, o):
        return int(self) >= (int(o) if isinstance(o, B) else o)

    def __repr__(self):
        if self.k == "p":
            return "(%s %s 0)" % (P.show(self.a), self.op)
        if self.k == "not":
            return "!%r" % self.a
        if self.k == "c":
            return str(self.a)
        return "(" + (" %s " % self.k).join(map(repr, self.a)) + ")"


TRUE = B("c", True)
FALSE = B("c", False)


def tob(x):
    if isinstance(x, B):
        return x
    if isinstance(x, R):
        return tob(x != 0)
    return TRUE if x else FALSE


def _simp(b):
    return b


def And(*xs):
    out = []
    for x in xs:
        x = tob(x)
        if x.k == "c":
            if not x.a:
                return FALSE
            continue
        if x.k == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else B("and", tuple(out))


def Or(*xs):
    out = []
    for x in xs:
        x = tob(x)
        if x.k == "c":
            if x.a:
                return TRUE
            continue
        if x.k == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else B("or", tuple(out))


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def Not(x):
    x = tob(x)
    if x.k == "c":
        return FALSE if x.a else TRUE
    if x.k == "p":
        return B("p", x.a, _NEG[x.op])
    if x.k == "not":
        return x.a
    if x.k == "and":
        return Or(*[Not(y) for y in x.a])
    if x.k == "or":
        return And(*[Not(y) for y in x.a])
    return B("not", x)


def Xor(x, y):
    x, y = tob(x), tob(y)
    if x.k == "c":
        return Not(y) if x.a else y
    if y.k == "c":
        return Not(x) if y.a else x
    if x.key() == y.key():
        return FALSE
    return Or(And(x, Not(y)), And(Not(x), y))


_FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def _num_cmp(v, op):
    return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]


def relation(x, op):
    """x op 0, as B (or a plain constant B)."""
    if not x.n:
        return TRUE if _num_cmp(0, op) else FALSE
    if P.is_const(x.n) and not x.f:
        return TRUE if _num_cmp(x.n[0], op) else FALSE
    sign, fl = P.factor(x.n)
    sign = 1 if sign > 0 else -1
    if op in ("==", "!="):
        r = Or(*[poly_rel(q, "==") for q, e in fl])
        return r if op == "==" else Not(r)
    odd = [q for q, e in fl if e & 1]
    even = [q for q, e in fl if not e & 1]
    for k, e in x.f.items():
        if e & 1:
            odd.append(_factor_polys[k])     # non-zero by construction
    if op in ("<=", ">="):
        return Not(_strict(odd, even, sign, "<" if op == ">=" else ">"))
    return _strict(odd, even, sign, op)


def _strict(odd, even, sign, op):
    """sign * prod(odd) * (prod(even))^2  op 0, with op strict."""
    want = 1 if op == ">" else -1
    want *= sign
    c = CTX()
    left = []
    for q in odd:
        s = c.sign_hint(q) if c is not None else None
        if s:
            want *= s
        else:
            left.append(q)
    nz = [poly_rel(q, "!=") for q in even]
    if not left:
        return And(*(nz + [TRUE if want > 0 else FALSE]))
    if len(left) <= 3:
        return And(*(nz + [_prodsign(left, want)]))
    pr = {0: 1}
    for q in left:
        pr = P.mul(pr, q)
    return And(*(nz + [poly_rel(pr, ">" if want > 0 else "<")]))


def _prodsign(qs, want):
    if len(qs) == 1:
        return poly_rel(qs[0], ">" if want > 0 else "<")
    h, t = qs[0], qs[1:]
    return Or(And(poly_rel(h, ">"), _prodsign(t, want)),
              And(poly_rel(h, "<"), _prodsign(t, -want)))


def poly_rel(p, op):
    """p op 0, normalised; sqrt symbols eliminated where that stays small."""
    if not p:
        return TRUE if _num_cmp(0, op) else FALSE
    if P.is_const(p):
        return TRUE if _num_cmp(p[0], op) else FALSE
    c, q = P.primitive(p)
    if c < 0:
        op = _FLIP[op]
    cx = CTX()
    if cx is not None:
        r = cx.interval_rel(q, op)
        if r is not None:
            return TRUE if r else FALSE
    if P.has_sqrt(q):
        r = _elim(q, op)
        if r is not None:
            return r
    return B("p", q, op)


def _elim(q, op, depth=0):
    syms = [i for i in P.symbols(q) if T.syms[i].kind == "sqrt"]
    if len(syms) > 2:
        return None
    i = max(syms)
    sh = P.BITS * i
    f = T.syms[i].f
    A = {m: c for m, c in q.items() if not (m >> sh) & P.FIELD}
    Bp = {m - (1 << sh): c for m, c in q.items() if (m >> sh) & P.FIELD}
    if op in ("<=", ">="):
        return Not(_elim(q, "<" if op == ">=" else ">", depth))
    if op == "!=":
        return Not(_elim(q, "==", depth))
    if not A:
        if op == "==":
            return Or(rel0(Bp, "=="), rel0(f, "=="))
        return And(rel0(Bp, op), rel0(f, ">"))
    D = P.sub(P.mul(A, A), P.mul(P.mul(Bp, Bp), f))   # A^2 - B^2 f
    if op == "==":
        return And(rel0(D, "=="), Or(And(rel0(A, ">="), rel0(Bp, "<=")), And(rel0(A, "<="), rel0(Bp, ">="))))
    if op == "<":
        A, Bp = P.neg(A), P.neg(Bp)
    return Or(And(rel0(A, ">"), Or(rel0(Bp, ">="), rel0(D, ">"))),
              And(rel0(Bp, ">"), rel0(D, "<"), rel0(A, "<=")))


def rel0(p, op):
    """p op 0 with factoring."""
    if not p:
        return TRUE if _num_cmp(0, op) else FALSE
    if P.is_const(p):
        return TRUE if _num_cmp(p[0], op) else FALSE
    if len(p) > 60:
        return poly_rel(p, op)
    r = object.__new__(R)
    r.n, r.d, r.f = p, 1, {}
    return relation(r, op)


# --------------------------------------------------------------- explorer --

_ctx = None


def CTX():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


BIGDEN = 1 << 220


def sqrt_fraction(q):
    """(value, exact?) of sqrt(q) as a Fraction, truncated at 2**-220 or so."""
    if q <= 0:
        return Fraction(0), True
    n, d = q.numerator, q.denominator
    rn, rd = isqrt(n), isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd), True
    k = isqrt((n * BIGDEN * BIGDEN) // d)
    return Fraction(k, BIGDEN), False


class Stats(dict):
    KEYS = ("paths", "branches", "forks", "queries", "unknown", "obligations",
            "discharged", "undecided", "aborted", "timeouts", "concretized", "assume_cut", "skipped")

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0


class Ctx:
    """Symbolic execution context: one path of one harness."""
    symbolic = True

    def __init__(self, out_path, tokens=None, rlimit=4_000_000, deadline=None,
                 path_seconds=120, max_cex=12, own_token=False,
                 query_seconds=10):
        self.query_seconds = query_seconds
        self.out_path = out_path
        self.tokens = tokens
        self.rlimit = rlimit
        self.deadline = deadline
        self.path_seconds = path_seconds
        self.max_cex = max_cex
        self.pc = []
        self.lin = z3.Solver()
        self.pc_lin = True
        self.vals = []
        self.exact = []
        self.decided = {}
        self.params = []
        self.bounds = {}
        self.iv = {}
        self.st = Stats()
        self.cex = []
        self.notes = []
        self.raw = []
        self.children = []
        self.choices = {}
        self.have_token = own_token
        self.zc = {}
        self.ivcache = {}
        self.qcache = {}
        self.ncex = 0
        self.samples = []
        self.trail = []
        self.ints = False
        self.ticks = 0
        self.hung = os.path.join(os.path.dirname(out_path) or ".", "hung")

    # -- declaring inputs
    def real(self, name, lo=None, hi=None, init=None):
        s = T.new(name, "param")
        s.z3 = z3.Real(name)
        self.params.append(s)
        lo = None if lo is None else to_fraction(lo)
        hi = None if hi is None else to_fraction(hi)
        self.iv[s.idx] = (lo, hi)
        if lo is not None:
            self._add(B("p", P.sub(P.scale(P.var(s), lo.denominator), P.const(lo.numerator)), ">="))
        if hi is not None:
            self._add(B("p", P.sub(P.scale(P.var(s), hi.denominator), P.const(hi.numerator)), "<="))
        if init is not None:
            v = to_fraction(init)
        elif lo is not None and hi is not None:
            # distinct generic starting points
            k = len(self.params)
            v = lo + (hi - lo) * Fraction(37 * k % 101 + 11, 127)
        elif lo is not None:
            v = lo + Fraction(len(self.params) * 7 + 3, 5)
        elif hi is not None:
            v = hi - Fraction(len(self.params) * 7 + 3, 5)
        else:
            v = Fraction(len(self.params) * 7 - 12, 5)
        self.vals.append(v)
        self.exact.append(True)
        r = object.__new__(R)
        r.n, r.d, r.f = P.var(s), 1, {}
        return r

    def new_sqrt(self, s):
        s.z3 = z3.Real(s.name)
        v = P.evaluate(s.f, self.vals)
        v, ex = sqrt_fraction(Fraction(v))
        ex = ex and all(self.exact[i] for i in P.symbols(s.f))
        self.vals.append(v)
        self.exact.append(ex)
        lo, hi = self.interval(s.f)
        lo = Fraction(0) if lo is None or lo < 0 else sqrt_fraction(lo)[0]
        if hi is not None:
            hi = sqrt_fraction(max(hi, Fraction(0)))[0] + Fraction(1, 1 << 200)
        self.iv[s.idx] = (lo, hi)

    def choice(self, name, n):
        """An integer variable in range(n): the solver enumerates its feasible values."""
        opts = list(range(n)) if isinstance(n, int) else list(n)
        if len(opts) == 1:
            self.choices[name] = opts[0]
            return opts[0]
        b = None
        iv = self.real("#" + name, 0, len(opts) - 1, init=0)
        for i in range(len(opts) - 1):
            if bool(iv <= Fraction(2 * i + 1, 2)):
                self.assume(iv == i)
                self.choices[name] = opts[i]
                return opts[i]
        self.assume(iv == len(opts) - 1)
        self.choices[name] = opts[-1]
        return opts[-1]

    # -- conditions
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)

    @staticmethod
    def Implies(a, b):
        return Or(Not(a), b)

    @staticmethod
    def sqrt(x):
        return sqrt(x)

    def close(self, a, b, tol=0):
        d = lift(a) - lift(b)
        if tol == 0:
            if MODE["const"] != "float":
                return tob(d == 0)
            tol = Fraction(1, 10 ** 6) * (1 + int(max(abs(x) if isinstance(x, (int, float)) else 0 for x in (a, b))))
        t = to_fraction(tol)
        r = And(d <= t, d >= -t)
        if r.k == "c" and r.a and len(self.raw) < 300:
            self._raw_claim(a, b, t)
        return r

    def _raw_claim(self, a, b, t):
        """The normal form made the claim |a - b| <= t trivial; the solver confirms it from the terms as they were."""
        x, y = lift(a), lift(b)
        for q in (x, y):
            if q.f or P.degree(q.n) > 2 or P.has_sqrt(q.n):
                return
        if P.is_const(x.n) and P.is_const(y.n):
            return
        e = self.zq(x) - self.zq(y)
        tt = z3.Q(t.numerator, t.denominator)
        self.raw.append(z3.And(e <= tt, e >= -tt))

    def zq(self, x):
        if not x.n:
            return z3.RealVal(0)
        return self.zp(x.n) / z3.RealVal(x.d)

    def certify(self):
        """One query for all claims that normal forms have decided on this path."""
        if not self.raw:
            return
        t0 = time.time()
        self.st["queries"] += 1
        self.lin.push()
        try:
            self.lin.add(z3.Not(z3.And(*self.raw)))
            self.lin.set("rlimit", self.rlimit)
            r = self.lin.check()
        finally:
            self.lin.pop()
            self.st["solver_s"] += time.time() - t0
        if r == z3.unsat:
            self.st["certified"] = self.st.get("certified", 0) + len(self.raw)
        elif r == z3.sat:
            self.st["undecided"] += 1
            self.notes.append("normal form and solver disagree")

    def is_true(self, b):
        """Branches on b."""
        return bool(b)

    # -- intervals
    def interval(self, p):
        k = P.key(p)
        hit = self.ivcache.get(k)
        if hit is not None:
            return hit
        lo = hi = Fraction(0)
        for m, c in p.items():
            a = b = Fraction(c)
            i = 0
            while m:
                e = m & P.FIELD
                if e:
                    l, h = self.iv.get(i, (None, None))
                    if l is None or h is None:
                        if l is not None and l >= 0 and (a is None or a >= 0) and a is not None:
                            # [a,b] * [l, inf)^e with a >= 0
                            a, b = a * l ** e, None
                            m >>= P.BITS
                            i += 1
                            if b is None and a is None:
                                break
                            # further factors: only lower bound can be kept for
                            # non-negative factors
                            while m:
                                e2 = m & P.FIELD
                                if e2:
                                    l2, h2 = self.iv.get(i, (None, None))
                                    if l2 is None or l2 < 0:
                                        a = None
                                        break
                                    a = a * l2 ** e2
                                m >>= P.BITS
                                i += 1
                            break
                        a = b = None
                        break
                    if e % 2 == 0:
                        x, y = sorted((abs(l) ** e, abs(h) ** e))
                        if l <= 0 <= h:
                            x = Fraction(0)
                    else:
                        x, y = l ** e, h ** e
                    cs = (a * x, a * y, b * x, b * y)
                    a, b = min(cs), max(cs)
                m >>= P.BITS
                i += 1
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
            if lo is None and hi is None:
                break
        res = (lo, hi)
        self.ivcache[k] = res
        return res

    def interval_rel(self, q, op):
        lo, hi = self.interval(q)
        if lo is not None:
            if lo > 0:
                return op in (">", ">=", "!=")
            if lo == 0 and op == ">=":
                return True
            if lo == 0 and op == "<":
                return False
        if hi is not None:
            if hi < 0:
                return op in ("<", "<=", "!=")
            if hi == 0 and op == "<=":
                return True
            if hi == 0 and op == ">":
                return False
        sg = self.quad_sign(q)
        if sg:
            return _num_cmp(sg, op)
        for o2 in (">", "<", "=="):
            d = self.decided.get(("p", P.key(q), o2))
            if d:
                return _num_cmp({">": 1, "<": -1, "==": 0}[o2], op)
        return None

    def sign_hint(self, q):
        lo, hi = self.interval(q)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        k = P.key(q)
        if self.decided.get(("p", k, ">")):
            return 1
        if self.decided.get(("p", k, "<")):
            return -1
        if lo is not None and lo >= 0 and self.decided.get(("p", k, "!=")):
            return 1
        return self.quad_sign(q, k)

    def quad_sign(self, q, k=None):
        """1 / -1 for a definite quadratic polynomial (exact test), else None."""
        k = k or P.key(q)
        if k in self.qcache:
            return self.qcache[k]
        res = None
        if P.degree(q) == 2 and not P.has_sqrt(q):
            res = definite(q)
        self.qcache[k] = res
        return res

    # -- witness evaluation
    def ev_poly(self, p):
        """sign of p under the witness: -1, 0, 1 or None (too close to tell)."""
        v, mag = P.evaluate_scaled(p, self.vals)
        if all(self.exact[i] for i in P.symbols(p)):
            return (v > 0) - (v < 0)
        if abs(v) * (1 << 100) <= mag:
            return None
        return 1 if v > 0 else -1

    def ev(self, b):
        if b.k == "c":
            return b.a
        if b.k == "p":
            s = self.ev_poly(b.a)
            return None if s is None else _num_cmp(s, b.op)
        if b.k == "not":
            v = self.ev(b.a)
            return None if v is None else not v
        if b.k == "and":
            r = True
            for x in b.a:
                v = self.ev(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        r = False
        for x in b.a:
            v = self.ev(x)
            if v is True:
                return True
            if v is None:
                r = None
        return r

    # -- z3
    def zp(self, p):
        k = P.key(p)
        z = self.zc.get(k)
        if z is not None:
            return z
        ts = []
        for m, c in p.items():
            fs = []
            i = 0
            while m:
                e = m & P.FIELD
                for _ in range(e):
                    fs.append(T.syms[i].z3)
                m >>= P.BITS
                i += 1
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(c))
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        z = z3.Sum(*ts) if len(ts) > 1 else ts[0]
        self.zc[k] = z
        return z

    def zb(self, b, defs):
        """z3 formula of b; the sqrt symbols it mentions are collected in defs."""
        if b.k == "c":
            return z3.BoolVal(b.a)
        if b.k == "p":
            for i in P.symbols(b.a):
                if T.syms[i].kind == "sqrt":
                    defs.add(i)
            e = self.zp(b.a)
            return {"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0}[b.op]
        if b.k == "not":
            return z3.Not(self.zb(b.a, defs))
        xs = [self.zb(x, defs) for x in b.a]
        return z3.And(*xs) if b.k == "and" else z3.Or(*xs)

    @staticmethod
    def is_lin(b):
        if b.k == "c":
            return True
        if b.k == "p":
            return P.degree(b.a) <= 1 and not P.has_sqrt(b.a)
        if b.k == "not":
            return Ctx.is_lin(b.a)
        return all(Ctx.is_lin(x) for x in b.a)

    def _add(self, b):
        b = tob(b)
        if b.k == "and":
            for x in b.a:
                self._add(x)
            return
        if b.k == "c" and b.a:
            return
        self.pc.append(b)
        self.decided[b.key()] = True
        self.decided[Not(b).key()] = False
        if b.k == "p":
            if b.op in (">", "<", "=="):
                k = P.key(b.a)
                for o in ("<", "<=", ">", ">=", "==", "!="):
                    self.decided[("p", k, o)] = _num_cmp({">": 1, "<": -1, "==": 0}[b.op], o)
        if self.is_lin(b):
            self.lin.add(self.zb(b, set()))
        else:
            self.pc_lin = False

    def sqrt_defs(self, defs, out):
        todo = list(defs)
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            s = T.syms[i]
            out.append(s.z3 * s.z3 == self.zp(s.f))
            out.append(s.z3 >= 0)
            lo, hi = self.iv.get(i, (None, None))
            for j in P.symbols(s.f):
                if T.syms[j].kind == "sqrt":
                    todo.append(j)

    def query(self, extra):
        """Is pc /\\ extra satisfiable?  ('sat', model dict) / ('unsat', None) / ('unknown', None)."""
        t0 = time.time()
        self.st["queries"] += 1
        try:
            return self._query(extra)
        finally:
            self.st["solver_s"] += time.time() - t0

    def _query(self, extra):
        extra = tob(extra)
        if extra.k == "c" and not extra.a:
            return "unsat", None
        xs = extra.a if extra.k == "and" else (extra,)
        lin = [x for x in xs if self.is_lin(x)]
        self.lin.push()
        try:
            for x in lin:
                self.lin.add(self.zb(x, set()))
            self.lin.set("rlimit", self.rlimit)
            r = self.lin.check()
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat and self.pc_lin and len(lin) == len(xs):
                return "sat", self.model_vals(self.lin.model())
        finally:
            self.lin.pop()
        defs = set()
        fs = [self.zb(b, defs) for b in self.pc]
        fs += [self.zb(x, defs) for x in xs]
        self.sqrt_defs(defs, fs)
        r, m = self._hard(fs)
        if r == "unknown":
            self.st["unknown"] += 1
        return r, m

    def _hard(self, fs):
        """Non-linear query, in a forked child under a wall-clock limit (z3 does
        not always honour its own limits)."""
        import select
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                os.close(rd)
                out = ["unknown", None]
                for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.Solver()):
                    s = mk()
                    s.set("rlimit", self.rlimit)
                    s.add(*fs)
                    r = s.check()
                    if r == z3.unsat:
                        out = ["unsat", None]
                        break
                    if r == z3.sat:
                        v, ex = self.model_vals(s.model())
                        out = ["sat", [[str(x) for x in v], ex]]
                        break
                os.write(wr, json.dumps(out).encode() + b"\n")
            finally:
                os._exit(0)
        os.close(wr)
        data = b""
        end = time.time() + self.query_seconds
        try:
            while not data.endswith(b"\n"):
                left = end - time.time()
                if left <= 0 or not select.select([rd], [], [], left)[0]:
                    break
                chunk = os.read(rd, 1 << 20)
                if not chunk:
                    break
                data += chunk
        finally:
            os.close(rd)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        if DUMP and not data.endswith(b"\n"):
            s = z3.Solver()
            s.add(*fs)
            open(DUMP + "/%d_%d.smt2" % (os.getpid(), time.time_ns()), "w").write(s.to_smt2())
        if not data.endswith(b"\n"):
            return "unknown", None
        r, m = json.loads(data)
        if m is not None:
            m = ([Fraction(x) for x in m[0]], m[1])
        return r, m

    def model_vals(self, m):
        vals, exact = [], []
        for s in T.syms:
            if s.kind == "param":
                v = m.eval(s.z3, model_completion=False)
                if z3.is_rational_value(v):
                    vals.append(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                    exact.append(True)
                elif z3.is_algebraic_value(v):
                    a = v.approx(60)
                    vals.append(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                    exact.append(False)
                else:
                    # unconstrained: keep the current witness if it is inside the bounds
                    vals.append(self.vals[s.idx])
                    exact.append(self.exact[s.idx])
            else:
                v, ex = sqrt_fraction(Fraction(P.evaluate(s.f, vals)))
                ex = ex and all(exact[i] for i in P.symbols(s.f))
                vals.append(v)
                exact.append(ex)
        return vals, exact

    # -- branching
    def decide(self, b):
        k = b.key()
        d = self.decided.get(k)
        if d is not None:
            return d
        if b.k == "and":
            # decided conjuncts shorten the formula
            rest = [x for x in b.a if self.decided.get(x.key()) is not True]
            if any(self.decided.get(x.key()) is False for x in rest):
                return False
            if not rest:
                return True
        elif b.k == "or":
            rest = [x for x in b.a if self.decided.get(x.key()) is not False]
            if any(self.decided.get(x.key()) is True for x in rest):
                return True
            if not rest:
                return False
        self.st["branches"] += 1
        self.check_deadline()
        nb = Not(b)
        w = self.ev(b)
        if w is None:
            r1, m1 = self.query(b)
            r2, m2 = self.query(nb)
            if r1 == "unsat" and r2 == "unsat":
                raise PathAbort("dead")
            if r1 == "sat" and m1:
                w = True
                self.vals, self.exact = m1
                other, om = r2, m2
            elif r2 == "sat" and m2:
                w = False
                self.vals, self.exact = m2
                other, om = r1, m1
            else:
                if r1 == "unsat":
                    w, other, om = False, "unsat", None
                elif r2 == "unsat":
                    w, other, om = True, "unsat", None
                else:
                    self.st["undecided"] += 1
                    raise PathAbort("unknown")
        else:
            other, om = self.query(nb if w else b)
        if other == "unsat":
            self.decided[k] = w
            self.decided[nb.key()] = not w
            return w
        if other == "unknown":
            self.st["undecided"] += 1
            self.notes.append("undecided branch: %s" % repr(b)[:200])
            self._add(b if w else nb)
            return w
        # both directions feasible
        self.st["forks"] += 1
        if self.fork():
            # child: the other direction
            self.vals, self.exact = om
            w = not w
        self._add(b if w else nb)
        self.trail.append(w)
        return w

    def hopeless(self):
        """Several paths, in any harness of this run, did not end in time: a counterexample each."""
        try:
            return os.path.getsize(self.hung) >= 6
        except OSError:
            return False

    def check_deadline(self):
        self.ticks += 1
        if self.deadline and (time.time() > self.deadline or self.ticks % 64 == 1 and self.hopeless()):
            self.st["undecided"] += 1
            self.st["timeouts"] += 1
            self.notes.append("deadline reached: path not explored further")
            raise PathAbort("deadline")

    def fork(self):
        """True in the new process."""
        got = False
        if self.tokens is not None:
            try:
                got = bool(os.read(self.tokens[0], 1))
            except BlockingIOError:
                got = False
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            self.st = Stats()
            self.cex = []
            self.notes = []
            self.samples = []
            self.children = []
            self.have_token = got
            self.arm()
            return True
        if got:
            self.children.append(pid)
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.reap(pid)
            self.arm()
        return False

    def reap(self, pid):
        _, status = os.waitpid(pid, 0)
        if status:
            self.notes.append("a path process died (status %d)" % status)
            self.st["undecided"] += 1

    def arm(self):
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, 5 if self.hopeless() else self.path_seconds, 5)

    def _alarm(self, *a):
        raise PathTimeout()

    # -- assumptions, obligations
    def assume(self, b):
        b = tob(b)
        if b.k == "c":
            if not b.a:
                raise PathAbort("assume")
            return
        d = self.decided.get(b.key())
        if d is True:
            return
        if d is False:
            raise PathAbort("assume")
        if self.ev(b) is True:
            self._add(b)
            return
        r, m = self.query(b)
        if r == "sat":
            self.vals, self.exact = m
            self._add(b)
        elif r == "unsat":
            self.st["assume_cut"] += 1
            raise PathAbort("assume")
        else:
            self.st["undecided"] += 1
            raise PathAbort("unknown")

    def feasible(self, b):
        """Reachability witness: can b hold on this path?"""
        b = tob(b)
        if b.k == "c":
            return b.a
        return self.query(b)[0] == "sat"

    def require(self, b, label, robust=None):
        """Obligation: b holds for every value on this path."""
        self.st["obligations"] += 1
        b = tob(b)
        if b.k == "c" and b.a:
            self.st["discharged"] += 1
            return True
        d = self.decided.get(b.key())
        if d is True:
            self.st["discharged"] += 1
            return True
        nb = Not(b)
        if b.k == "c":
            self.add_cex(label, self.vals)
            raise PathAbort("violated")
        r, m = self.query(nb)
        if r == "unsat":
            self.st["discharged"] += 1
            self.decided[b.key()] = True
            return True
        if r == "sat":
            got = False
            if robust is not None:
                r2, m2 = self.query(And(nb, Not(tob(robust))))
                if r2 == "sat":
                    self.add_cex(label, m2[0])
                    got = True
            if not got:
                self.add_cex(label, m[0])
            # look for a second, different model
            if self.params:
                s = self.params[0]
                v = m[0][s.idx]
                p = P.sub(P.scale(P.var(s), v.denominator), P.const(v.numerator))
                for op in (">", "<"):
                    r3, m3 = self.query(And(nb, B("p", p, op) if p else FALSE))
                    if r3 == "sat":
                        self.add_cex(label, m3[0])
            self.assume(b)
            return False
        self.st["undecided"] += 1
        self.notes.append("undecided obligation: %s" % label)
        self._add(b)
        return None

    def fail(self, label):
        return self.require(FALSE, label)

    def skip(self, why):
        """The code under test has no such part (any more)."""
        self.st["skipped"] += 1
        self.notes.append("skipped: " + why)
        raise PathAbort("skip")

    def add_cex(self, label, vals):
        self.cex.append({"label": label, "values": self.inputs(vals), "choices": dict(self.choices)})

    def inputs(self, vals=None):
        vals = self.vals if vals is None else vals
        return {s.name: str(vals[s.idx]) for s in self.params if not s.name.startswith("#")}

    def concretize(self, x):
        """Continue with the witness value of x only (recorded: coverage is cut)."""
        self.st["concretized"] += 1
        r = object.__new__(R)
        v = Fraction(P.evaluate(x.n, self.vals)) / x.d
        for k, e in x.f.items():
            v /= P.evaluate(_factor_polys[k], self.vals) ** e
        if len(self.notes) < 5:
            fr = sys._getframe(2)
            self.notes.append("concretized a value at %s:%d" % (os.path.basename(fr.f_code.co_filename), fr.f_lineno))
        self.assume(x == v) if all(self.exact[i] for i in P.symbols(x.n)) else None
        return v

    # -- running
    def flush(self):
        rec = {"st": self.st, "cex": self.cex[:self.max_cex], "notes": self.notes[:20],
               "samples": self.samples[:3], "funcs": sorted(FUNCS)}
        data = (json.dumps(rec) + "\n").encode()
        fd = os.open(self.out_path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        fcntl.flock(fd, fcntl.LOCK_EX)
        os.write(fd, data)
        os.close(fd)


def definite(q):
    """Sign of a quadratic polynomial that is positive (or negative) everywhere
    away from the common zero of its variables; 0 only there.  Only strict
    definiteness of the homogenised form counts."""
    idx = P.symbols(q)
    n = len(idx) + 1
    pos = {v: i for i, v in enumerate(idx)}
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in q.items():
        vs = []
        i = 0
        while m:
            for _ in range(m & P.FIELD):
                vs.append(pos[i])
            m >>= P.BITS
            i += 1
        while len(vs) < 2:
            vs.append(n - 1)
        a, b = vs
        if a == b:
            M[a][a] += c
        else:
            M[a][b] += Fraction(c, 2)
            M[b][a] += Fraction(c, 2)
    hom = all(x == 0 for x in M[n - 1])
    size = n - 1 if hom else n
    s = 0
    A = [row[:size] for row in M[:size]]
    for i in range(size):
        d = A[i][i]
        if d == 0:
            return None
        t = 1 if d > 0 else -1
        if s == 0:
            s = t
        elif s != t:
            return None
        for r in range(i + 1, size):
            k = A[r][i] / d
            if k:
                for c in range(i, size):
                    A[r][c] -= k * A[i][c]
    if hom:
        # definite form: zero only where all variables vanish
        c = CTX()
        if c is None or not any((c.iv.get(v, (None, None))[0] or 0) > 0 or
                                (c.iv.get(v, (None, None))[1] is not None and c.iv[v][1] < 0) for v in idx):
            return None
    return s


FUNCS = set()
DUMP = os.environ.get('SYMX_DUMP')


def watch_functions(prefix):
    """Records (once each) the functions of the repository that get executed."""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(prefix):
            FUNCS.add("%s:%s" % (os.path.relpath(code.co_filename, prefix), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def explore(fn, out_path, tokens=None, **kw):
    """Runs fn(ctx) on every feasible path.  Must be called in a process of its
    own (it forks, and this call returns only in the root process)."""
    P.reset()
    _factor_polys.clear()
    root = os.getpid()
    ctx = Ctx(out_path, tokens, **kw)
    set_ctx(ctx)
    ctx.arm()
    code = 0
    try:
        try:
            fn(ctx)
            ctx.certify()
            ctx.st["paths"] += 1
            ctx.samples.append({"values": ctx.inputs(), "choices": dict(ctx.choices),
                                "branches_taken": len(ctx.trail)})
        except PathAbort as e:
            if str(e) == "violated":
                ctx.st["paths"] += 1
            else:
                ctx.st["aborted"] += 1
        except PathTimeout:
            ctx.st["timeouts"] += 1
            with open(ctx.hung, "a") as fp:
                fp.write("x")
            ctx.cex.append({"label": "timeout", "values": ctx.inputs(), "choices": dict(ctx.choices),
                            "timeout": True})
        except Inf as e:
            ctx.st["undecided"] += 1
            ctx.notes.append("infinite value: %r" % (e,))
        except RecursionError:
            ctx.st["undecided"] += 1
            ctx.notes.append("recursion limit")
        signal.setitimer(signal.ITIMER_REAL, 0)
    except BaseException:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.st["undecided"] += 1
        ctx.notes.append("harness error: " + traceback.format_exc()[-1500:])
    try:
        if ctx.have_token and ctx.tokens is not None:
            os.write(ctx.tokens[1], b"x")
            ctx.have_token = False
        for pid in ctx.children:
            ctx.reap(pid)
        ctx.flush()
    except BaseException:
        traceback.print_exc()
        code = 3
    if os.getpid() != root:
        os._exit(code)
    return ctx
