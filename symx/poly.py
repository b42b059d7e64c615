"""Sparse integer polynomials over named symbols, with algebraic square-root
symbols (s*s = f) reduced on multiplication.

A polynomial is a dict {packed monomial: int}.  A packed monomial holds the
exponent of symbol i in bits [8i, 8i+8).  Integer comparison of packed
monomials is a lexicographic monomial order."""
from fractions import Fraction
from math import gcd

BITS = 8
FIELD = (1 << BITS) - 1


class Sym:
    __slots__ = ("idx", "name", "kind", "f", "z3", "is_int")

    def __init__(self, idx, name, kind, f=None):
        self.idx, self.name, self.kind, self.f = idx, name, kind, f
        self.z3 = None
        self.is_int = False


class Table:
    """The symbols of one exploration, in creation order."""

    def __init__(self):
        self.syms = []
        self.sqrt_hi = 0          # mask of the exponent bits >= 2 of sqrt symbols
        self.sqrt_any = 0
        self.hibits = 0
        self.sqrt_by_f = {}

    def new(self, name, kind, f=None):
        s = Sym(len(self.syms), name, kind, f)
        self.syms.append(s)
        sh = BITS * s.idx
        self.hibits |= 0x80 << sh
        if kind == "sqrt":
            self.sqrt_hi |= 0xFE << sh
            self.sqrt_any |= FIELD << sh
        return s


T = Table()


def reset():
    T.syms.clear()
    T.sqrt_hi = T.sqrt_any = T.hibits = 0
    T.sqrt_by_f.clear()
    _factor_cache.clear()


def const(c):
    return {0: c} if c else {}


def var(sym):
    return {1 << (BITS * sym.idx): 1}


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def scale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def _rawmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m + n
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                del r[k]
    return r


def reduce(p):
    """Replaces s**2 by its radicand until no sqrt symbol has exponent > 1."""
    hi = T.sqrt_hi
    if not hi:
        return p
    while True:
        bad = [m for m in p if m & hi]
        if not bad:
            return p
        r = {m: c for m, c in p.items() if not m & hi}
        for m in bad:
            c = p[m]
            # reduce the newest sqrt symbol first
            x = m & hi
            i = (x.bit_length() - 1) // BITS
            sh = BITS * i
            e = (m >> sh) & FIELD
            m2 = m - ((e - (e & 1)) << sh)
            t = {m2: c}
            f = T.syms[i].f
            for _ in range(e >> 1):
                t = _rawmul(t, f)
            r = add(r, t)
        p = r


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and 0 in p:
        return scale(q, p[0])
    if len(q) == 1 and 0 in q:
        return scale(p, q[0])
    return reduce(_rawmul(p, q))


def content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def primitive(p):
    """(unit content c, primitive part with a positive leading coefficient)."""
    if not p:
        return 0, {}
    g = content(p)
    if p[max(p)] < 0:
        g = -g
    if g == 1:
        return 1, p
    return g, {m: c // g for m, c in p.items()}


def key(p):
    return tuple(sorted(p.items()))


def symbols(p):
    u = 0
    for m in p:
        u |= m
    out = []
    i = 0
    while u:
        if u & FIELD:
            out.append(i)
        u >>= BITS
        i += 1
    return out


def has_sqrt(p):
    a = T.sqrt_any
    return bool(a) and any(m & a for m in p)


def degree(p):
    d = 0
    for m in p:
        e = 0
        while m:
            e += m & FIELD
            m >>= BITS
        d = max(d, e)
    return d


def exquo(p, q):
    """p / q if q divides p exactly as polynomials, else None (no sqrt reduction)."""
    if not p:
        return {}
    lm = max(q)
    lc = q[lm]
    H = T.hibits
    r = dict(p)
    out = {}
    while r:
        m = max(r)
        d = (m | H) - lm
        if d & H != H:
            return None
        c = r[m]
        if c % lc:
            return None
        k = c // lc
        mm = m - lm
        out[mm] = k
        for n, e in q.items():
            t = n + mm
            v = r.get(t, 0) - k * e
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return out


_factor_cache = {}


def factor(p):
    """(content, [(irreducible primitive factor, exponent)]) of a non-zero polynomial.
    Sqrt symbols count as plain symbols here, which is sound (a product stays
    a product) though not a canonical factorisation."""
    k = key(p)
    hit = _factor_cache.get(k)
    if hit is not None:
        return hit
    c, q = primitive(p)
    if is_const(q):
        res = (c * q.get(0, 1), [])
    elif len(q) == 1:
        (m, cc), = q.items()
        fs = []
        i = 0
        while m:
            e = m & FIELD
            if e:
                fs.append(({1 << (BITS * i): 1}, e))
            m >>= BITS
            i += 1
        res = (c * cc, fs)
    elif degree(q) == 1:
        res = (c, [(q, 1)])
    else:
        res = _sympy_factor(c, q)
    _factor_cache[k] = res
    return res


def _sympy_factor(c, q):
    from sympy.polys.rings import ring
    from sympy import ZZ
    idx = symbols(q)
    R = ring(["v%d" % i for i in idx], ZZ)[0]
    d = {}
    for m, a in q.items():
        d[tuple((m >> (BITS * i)) & FIELD for i in idx)] = a
    cc, fl = R.from_dict(d).factor_list()
    c = c * int(cc)
    fs = []
    for g, e in fl:
        gd = {}
        for ex, a in g.items():
            m = 0
            for i, x in zip(idx, ex):
                m |= int(x) << (BITS * i)
            gd[m] = int(a)
        u, gp = primitive(gd)
        if is_const(gp):
            c *= (u * gp.get(0, 1)) ** e
            continue
        c *= u ** e
        fs.append((gp, e))
    return (c, fs)


def evaluate(p, vals):
    """Numeric value of p; vals[i] is the value of symbol i."""
    tot = 0
    for m, c in p.items():
        t = c
        i = 0
        while m:
            e = m & FIELD
            if e == 1:
                t = t * vals[i]
            elif e:
                t = t * vals[i] ** e
            m >>= BITS
            i += 1
        tot = tot + t
    return tot


def evaluate_scaled(p, vals):
    """(value, sum of absolute term values)."""
    tot = 0
    mag = 0
    for m, c in p.items():
        t = c
        i = 0
        while m:
            e = m & FIELD
            if e == 1:
                t = t * vals[i]
            elif e:
                t = t * vals[i] ** e
            m >>= BITS
            i += 1
        tot = tot + t
        mag = mag + abs(t)
    return tot, mag


def show(p):
    if not p:
        return "0"
    out = []
    for m in sorted(p, reverse=True):
        c = p[m]
        t = []
        i = 0
        while m:
            e = m & FIELD
            if e:
                t.append(T.syms[i].name + ("^%d" % e if e > 1 else ""))
            m >>= BITS
            i += 1
        out.append("%+d%s" % (c, ("*" + "*".join(t)) if t else ""))
    return " ".join(out)
