"""Stand-in for the compiled mathutils module (2D/3D/4D Vector and the geometry
functions), over any number type.  Semantics follow mathutils 3.3.0 in real
arithmetic: no float32 rounding, and == is exact instead of within 1 ulp."""
import sys
import types

from . import engine as E


def _num(x):
    if isinstance(x, E.R):
        return x
    if isinstance(x, E.B):
        return int(x)
    if isinstance(x, (int, float, E.Fraction)) or hasattr(x, "__float__"):
        if E.MODE["const"] == "exact":
            return E.lift(x) if isinstance(x, (int, float, E.Fraction)) else E.lift(float(x))
        return float(x)
    raise TypeError("a float is required, not %s" % type(x).__name__)


_SW = {"x": 0, "y": 1, "z": 2, "w": 3}


class Vector:
    __slots__ = ("c", "frozen")

    def __init__(self, seq=(0.0, 0.0, 0.0)):
        c = [_num(v) for v in seq]
        if not 2 <= len(c):
            raise ValueError("Vector(): sequence length must be at least 2")
        self.c = c
        self.frozen = False

    @classmethod
    def Fill(cls, n, v=0.0):
        return cls([v] * n)

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter(list(self.c))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self.c[i])
        if not -len(self.c) <= i < len(self.c):
            raise IndexError("vector[index]: out of range")
        return self.c[i]

    def __setitem__(self, i, v):
        if self.frozen:
            raise TypeError("Vector is frozen")
        if isinstance(i, slice):
            v = [_num(x) for x in v]
            if len(v) != len(self.c[i]):
                raise ValueError("vector[begin:end] = []: size mismatch")
            self.c[i] = v
            return
        self.c[i] = _num(v)

    def __getattr__(self, name):
        if name and all(ch in _SW for ch in name) and len(name) <= 4:
            idx = [_SW[ch] for ch in name]
            if max(idx) >= len(self.c):
                raise AttributeError("Vector swizzle: specified axis not present")
            if len(idx) == 1:
                return self.c[idx[0]]
            return Vector([self.c[i] for i in idx])
        raise AttributeError("'Vector' object has no attribute %r" % name)

    def __setattr__(self, name, v):
        if name in ("c", "frozen"):
            object.__setattr__(self, name, v)
            return
        if name and all(ch in _SW for ch in name):
            if self.frozen:
                raise TypeError("Vector is frozen")
            idx = [_SW[ch] for ch in name]
            if max(idx) >= len(self.c):
                raise AttributeError("Vector swizzle: specified axis not present")
            if len(idx) == 1:
                self.c[idx[0]] = _num(v)
            else:
                vs = list(v)
                for i, x in zip(idx, vs):
                    self.c[i] = _num(x)
            return
        if name in ("length", "magnitude"):
            n = self.length
            if bool(n == 0):
                return
            k = v / n
            self.c[:] = [x * k for x in self.c]
            return
        raise AttributeError("'Vector' object has no attribute %r" % name)

    def _same(self, o, what):
        if not isinstance(o, Vector):
            raise TypeError("unsupported operand type(s) for Vector %s" % what)
        if len(self.c) != len(o.c):
            raise AttributeError("Vector %s: vectors must have the same dimensions for this operation" % what)

    def __add__(self, o):
        self._same(o, "addition")
        return Vector([a + b for a, b in zip(self.c, o.c)])

    def __sub__(self, o):
        self._same(o, "subtraction")
        return Vector([a - b for a, b in zip(self.c, o.c)])

    def __iadd__(self, o):
        self._same(o, "addition")
        self.c[:] = [a + b for a, b in zip(self.c, o.c)]
        return self

    def __isub__(self, o):
        self._same(o, "subtraction")
        self.c[:] = [a - b for a, b in zip(self.c, o.c)]
        return self

    def __mul__(self, o):
        if isinstance(o, Vector):
            self._same(o, "multiplication")
            return Vector([a * b for a, b in zip(self.c, o.c)])
        k = _num(o)
        return Vector([a * k for a in self.c])

    def __rmul__(self, o):
        return self.__mul__(o)

    def __imul__(self, o):
        self.c[:] = (self * o).c
        return self

    def __matmul__(self, o):
        return self.dot(o)

    def __truediv__(self, o):
        k = _num(o)
        if bool(k == 0):
            raise ZeroDivisionError("Vector division: divide by zero error")
        return Vector([a / k for a in self.c])

    def __itruediv__(self, o):
        self.c[:] = (self / o).c
        return self

    def __neg__(self):
        return Vector([-a for a in self.c])

    def __pos__(self):
        return self.copy()

    def __eq__(self, o):
        if not isinstance(o, Vector) or len(self.c) != len(o.c):
            return False
        return E.And(*[a == b for a, b in zip(self.c, o.c)]) if any(
            isinstance(v, E.R) for v in self.c + o.c) else self.c == o.c

    def __ne__(self, o):
        r = self.__eq__(o)
        return E.Not(r) if isinstance(r, E.B) else not r

    def __lt__(self, o):
        return self.length_squared < o.length_squared

    def __gt__(self, o):
        return self.length_squared > o.length_squared

    def __le__(self, o):
        return self.length_squared <= o.length_squared

    def __ge__(self, o):
        return self.length_squared >= o.length_squared

    def __hash__(self):
        if not self.frozen:
            raise TypeError("Vector is not frozen (mutable), call freeze first")
        if any(isinstance(v, E.R) for v in self.c):
            return 7
        return hash(tuple(self.c))

    def __repr__(self):
        return "Vector((%s))" % ", ".join(map(repr, self.c))

    @property
    def length_squared(self):
        t = self.c[0] * self.c[0]
        for a in self.c[1:]:
            t = t + a * a
        return t

    @property
    def length(self):
        return E.sqrt(self.length_squared)

    magnitude = length

    def copy(self):
        return Vector(self.c)

    __copy__ = copy

    def __deepcopy__(self, memo=None):
        return Vector(self.c)

    def freeze(self):
        self.frozen = True
        return self

    @property
    def is_frozen(self):
        return self.frozen

    def dot(self, o):
        o = o if isinstance(o, Vector) else Vector(o)
        if len(o.c) != len(self.c):
            raise ValueError("Vector.dot(other), vectors must have the same dimensions")
        t = self.c[0] * o.c[0]
        for a, b in zip(self.c[1:], o.c[1:]):
            t = t + a * b
        return t

    def cross(self, o):
        o = o if isinstance(o, Vector) else Vector(o)
        a, b = self.c, o.c
        if len(a) != len(b):
            raise ValueError("Vector.cross(other), dimension mismatch")
        if len(a) == 2:
            return a[0] * b[1] - a[1] * b[0]
        if len(a) == 3:
            return Vector((a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]))
        raise ValueError("Vector must be 2D or 3D")

    def normalized(self):
        q = self.length_squared
        if bool(q == 0):
            return Vector([0.0] * len(self.c))
        n = E.sqrt(q)
        if isinstance(n, E.R):
            i = 1 / n
            return Vector([a * i for a in self.c])
        return Vector([a / n for a in self.c])

    def normalize(self):
        self.c[:] = self.normalized().c

    def negate(self):
        self.c[:] = [-a for a in self.c]

    def zero(self):
        self.c[:] = [_num(0.0)] * len(self.c)

    def to_2d(self):
        return Vector(self.c[:2])

    def to_3d(self):
        return Vector((self.c + [0.0])[:3])

    def resized(self, n):
        return Vector((self.c + [0.0] * n)[:n])

    def resize(self, n):
        self.c[:] = self.resized(n).c

    def resize_2d(self):
        self.resize(2)

    def resize_3d(self):
        self.resize(3)

    def to_tuple(self, p=None):
        return tuple(self.c)

    def lerp(self, o, f):
        return self + (o - self) * f

    def orthogonal(self):
        if len(self.c) != 2:
            raise NotImplementedError("orthogonal")
        return Vector((-self.c[1], self.c[0]))

    def project(self, o):
        return o * (self.dot(o) / o.dot(o))

    def reflect(self, m):
        n = m.normalized()
        return self - n * (2 * self.dot(n))


class _Geometry(types.ModuleType):
    pass


geometry = _Geometry("mathutils.geometry")


def intersect_point_line(pt, l1, l2):
    d = len(pt)
    u = l2 - l1
    q = u.length_squared
    if bool(q == 0):
        return l1.copy(), _num(0.0)
    lam = u.dot(pt - l1) / q
    return l1 + u * lam, lam


def intersect_line_line_2d(a, b, c, d):
    r, s = b - a, d - c
    den = r.x * s.y - r.y * s.x
    if bool(den == 0):
        return None
    q = c - a
    t = (q.x * s.y - q.y * s.x) / den
    v = (q.x * r.y - q.y * r.x) / den
    if t >= 0 and t <= 1 and v >= 0 and v <= 1:
        return a.to_2d() + r.to_2d() * t
    return None


def area_tri(a, b, c):
    u, v = b - a, c - a
    if len(u) == 2:
        return abs(u.cross(v)) / 2
    return u.cross(v).length / 2


geometry.intersect_point_line = intersect_point_line
geometry.intersect_line_line_2d = intersect_line_line_2d
geometry.area_tri = area_tri


def module():
    m = types.ModuleType("mathutils")
    m.Vector = Vector
    m.geometry = geometry
    return m
