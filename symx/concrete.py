"""The harness context over ordinary floats: used to replay a solver model
against the real code with the real mathutils."""
import math
from fractions import Fraction


class Stop(BaseException):
    pass


class CCtx:
    symbolic = False

    def __init__(self, values, choices, tolf=0.5):
        self.values, self.given = values, choices
        self.tolf = tolf
        self.failed = []
        self.passed = 0
        self.stop_first = True
        self.choices = {}

    def real(self, name, lo=None, hi=None, init=None):
        v = self.values.get(name)
        if v is None:
            v = init if init is not None else lo if lo is not None else hi if hi is not None else 0
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if (lo is not None and v < lo - 1e-9) or (hi is not None and v > hi + 1e-9):
            raise Stop("assume")
        return v

    def choice(self, name, n):
        opts = list(range(n)) if isinstance(n, int) else list(n)
        if name in self.given:
            v = self.given[name]
            for o in opts:
                if o == v or (isinstance(o, tuple) and isinstance(v, list) and list(o) == v):
                    self.choices[name] = o
                    return o
        return opts[0]

    @staticmethod
    def And(*xs):
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def sqrt(x):
        return math.sqrt(x)

    def close(self, a, b, tol=0):
        t = tol * self.tolf if tol else 1e-4 * max(1.0, abs(a), abs(b))
        return abs(a - b) <= t

    def is_true(self, b):
        return bool(b)

    def assume(self, b):
        if not bool(b):
            raise Stop("assume")

    def feasible(self, b):
        return bool(b)

    def require(self, b, label, robust=None):
        if bool(b):
            self.passed += 1
            return True
        self.failed.append(label)
        if self.stop_first:
            raise Stop("violated")
        return False

    def fail(self, label):
        return self.require(False, label)

    def skip(self, why):
        raise Stop("skip")
