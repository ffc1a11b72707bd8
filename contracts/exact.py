"""Exact values of ground terms in the field Q(sqrt 3)[pi, 1/pi]."""
from fractions import Fraction
from math import isqrt

import z3

from pyvc.sym import S, Cx, Unsupported


class Ex:
    """Sum over n of (a_n + b_n sqrt 3) pi^n."""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {n: v for n, v in (t or {}).items() if v != (0, 0)}

    @staticmethod
    def of(x):
        return x if isinstance(x, Ex) else Ex({0: (Fraction(x), Fraction(0))})

    def __add__(self, o):
        o = Ex.of(o)
        d = dict(self.t)
        for n, (a, b) in o.t.items():
            p, q = d.get(n, (0, 0))
            d[n] = (p + a, q + b)
        return Ex(d)
    __radd__ = __add__

    def __neg__(self):
        return Ex({n: (-a, -b) for n, (a, b) in self.t.items()})

    def __sub__(self, o):
        return self + (-Ex.of(o))

    def __rsub__(self, o):
        return Ex.of(o) - self

    def __mul__(self, o):
        o, d = Ex.of(o), {}
        for n, (a, b) in self.t.items():
            for m, (p, q) in o.t.items():
                x, y = d.get(n + m, (0, 0))
                d[n + m] = (x + a * p + 3 * b * q, y + a * q + b * p)
        return Ex(d)
    __rmul__ = __mul__

    def inv(self):
        if len(self.t) != 1:
            raise Unsupported("division by a value outside the field") if self.t else ZeroDivisionError()
        (n, (a, b)), = self.t.items()
        d = a * a - 3 * b * b
        return Ex({-n: (a / d, -b / d)})

    def __truediv__(self, o):
        return self * Ex.of(o).inv()

    def __rtruediv__(self, o):
        return Ex.of(o) * self.inv()

    def __eq__(self, o):
        return not (self - o).t

    def __hash__(self):
        return hash(tuple(sorted(self.t.items())))

    def sign(self):
        """Sign of a value with at most one power of pi."""
        if not self.t:
            return 0
        if len(self.t) != 1:
            raise Unsupported("sign of a mixed expression in pi")
        (_, (a, b)), = self.t.items()
        if a >= 0 and b >= 0:
            return 1
        if a <= 0 and b <= 0:
            return -1
        s = 1 if a * a > 3 * b * b else -1
        return s if a > 0 else -s

    def __lt__(self, o):
        return (self - o).sign() < 0

    def __le__(self, o):
        return (self - o).sign() <= 0

    def rational(self):
        """The rational value, or None."""
        if not self.t:
            return Fraction(0)
        if set(self.t) == {0} and self.t[0][1] == 0:
            return self.t[0][0]
        return None

    def integer(self):
        r = self.rational()
        return r is not None and r.denominator == 1

    def __float__(self):
        from math import pi, sqrt
        return float(sum((float(a) + float(b) * sqrt(3)) * pi ** n for n, (a, b) in self.t.items()))

    def __repr__(self):
        return "%.6g" % float(self)


def root(q):
    """Square root of a non-negative rational, if it is in the field."""
    for f, mk in ((Fraction(1), lambda r: (r, Fraction(0))), (Fraction(3), lambda r: (Fraction(0), r / 3))):
        x = q * f
        n, d = isqrt(x.numerator), isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Ex({0: mk(Fraction(n, d))})
    raise Unsupported("square root of %s" % q)


def constant(q):
    """A rational constant; a rounded one (huge denominator) within 1e-14 of p/n or p/n sqrt 3, n <= 48, is that value."""
    q = Fraction(q)
    if q.denominator > 10 ** 9:
        for f, mk in ((1.0, lambda r: Ex.of(r)), (3 ** 0.5, lambda r: Ex({0: (Fraction(0), r)}))):
            for n in range(1, 49):
                p = round(float(q) / f * n)
                if p and abs(float(q) - p / n * f) <= 1e-14 * max(1.0, abs(float(q))):
                    return mk(Fraction(p, n))
    return Ex.of(q)


PI = Ex({1: (Fraction(1), Fraction(0))})


def exact(v):
    """Value of a number or a ground term."""
    if isinstance(v, (int, float, Fraction)):
        return constant(v)
    if isinstance(v, Cx):
        raise Unsupported("complex value")
    e = v.e if isinstance(v, S) else v
    return term(e, {})


def term(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    memo[k] = r = term_(e, memo)
    return r


def term_(e, memo):
    if z3.is_int_value(e):
        return Ex.of(e.as_long())
    if z3.is_rational_value(e):
        return constant(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if not z3.is_app(e):
        raise Unsupported("not a ground term: %s" % e)
    n, k = e.decl().name(), e.decl().kind()
    if e.num_args() == 0 and n == "pi":
        return PI
    if n.startswith("sqrt"):
        if e.num_args():
            q = term(e.arg(0), memo).rational()
        else:
            q = Fraction(n[5:-1]) if n[4:5] == "[" else None
        if q is None or q < 0:
            raise Unsupported("square root %s" % e)
        return root(q)
    xs = [term(x, memo) for x in e.children()]
    if k == z3.Z3_OP_ADD:
        r = xs[0]
        for x in xs[1:]:
            r = r + x
        return r
    if k == z3.Z3_OP_SUB:
        r = xs[0]
        for x in xs[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_MUL:
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -xs[0]
    if k == z3.Z3_OP_DIV:
        return xs[0] / xs[1]
    if k == z3.Z3_OP_TO_REAL:
        return xs[0]
    if k == z3.Z3_OP_POWER and xs[1].integer():
        p = int(xs[1].rational())
        r = Ex.of(1)
        for _ in range(abs(p)):
            r = r * xs[0]
        return r if p >= 0 else r.inv()
    raise Unsupported("not a ground field term: %s" % e.decl())


def matrix(a):
    """Rows of exact values of a concrete array (1D: one row)."""
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 1:
        return [exact(x) for x in a]
    return [[exact(x) for x in r] for r in a]


def dot(a, b):
    r = Ex.of(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def comb(m, B):
    """sum of m_i B_i."""
    return [dot(m, [b[q] for b in B]) for q in range(len(B[0]))]


def det(M):
    if not M:
        return Ex.of(1)
    r = Ex.of(0)
    for j in range(len(M)):
        r = r + M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]]) * (-1 if j % 2 else 1)
    return r


def solve(M, b):
    """x with M x = b (Cramer)."""
    d = det(M)
    return [det([row[:j] + [b[i]] + row[j + 1:] for i, row in enumerate(M)]) / d for j in range(len(M))]
