"""Helpers to write contracts: arbitrary arguments, requires, ensures, outcomes."""
from fractions import Fraction

import numpy as np
import z3

from pyvc.sym import (S, Cx, Ctx, Unsupported, PathEnd, PyRaise, arith, compare, eqz, ite, fresh, is_num, tobool,
                      z, zi, zr, zbv, cparts, sort_of)
from pyvc.interp import Obj, PDict, PyClass, Native, Bound, OpaqueStr
from pyvc.verifier import Task

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


class H:
    """One verification path of one contract."""

    def __init__(self, rt, c):
        self.rt, self.c, self.ver = rt, c, rt.ver

    # arbitrary values
    def int(self, n="n"):
        return fresh("i", n)

    def real(self, n="x"):
        return fresh("r", n)

    def bool(self, n="b"):
        return fresh("b", n)

    def bv(self, n="w"):
        return fresh("v", n)

    def cx(self, n="z"):
        return Cx(fresh("r", n + "r"), fresh("r", n + "i"))

    def vec(self, d, n="v"):
        a = np.empty((d,), dtype=object)
        for i in range(d):
            a[i] = fresh("r", "%s%d_" % (n, i))
        return a

    def mat(self, r, q, n="m", cplx=False):
        a = np.empty((r, q), dtype=object)
        for i in range(r):
            for j in range(q):
                a[i, j] = self.cx("%s%d%d_" % (n, i, j)) if cplx else fresh("r", "%s%d%d_" % (n, i, j))
        return a

    def choose(self, items, label="c"):
        return items[self.c.choose(len(items), label)]

    # program
    def private(self, name, f):
        """A private name a contract is written on that is no longer there is no
        violation of anything: the contract is undecided."""
        if not name.startswith("_") or name.startswith("__"):
            return f()
        try:
            return f()
        except PyRaise as e:
            if exc_name(e) in ("AttributeError", "ImportError"):
                raise Unsupported("the private helper %s is not in the source any more" % name)
            raise

    def get(self, mod, name):
        return self.private(name, lambda: self.rt.getattr(self.rt.load("HamiltonianPy." + mod if not mod.startswith("HamiltonianPy") else mod), name))

    def call(self, f, *a, **k):
        return self.rt.call(f, list(a), k)

    def attr(self, o, n):
        return self.private(n, lambda: self.rt.getattr(o, n))

    def meth(self, o, n, *a, **k):
        return self.rt.call(self.attr(o, n), list(a), k)

    def outcome(self, f, *a, **k):
        """("ok", value) or ("raise", exception class name)."""
        try:
            return "ok", (self.rt.call(f, list(a), k) if not isinstance(f, type(lambda: 0)) else f(*a, **k))
        except PyRaise as e:
            return "raise", exc_name(e)

    def truth(self, v):
        return self.rt.truth(v)

    # logic
    def requires(self, f):
        self.c.assume(formula(f))
        if not self.c.feasible():
            raise PathEnd()

    def ensure(self, label, f, timeout=None):
        return self.ver.prove(self.c, label, formula(f), timeout)

    def fail(self, label):
        return self.ver.prove(self.c, label, z3.BoolVal(False))

    def eq(self, a, b):
        return formula(self.rt.eq(a, b))

    def value_eq(self, a, b):
        return value_eq(self.rt, a, b)

    def ensure_value(self, label, a, b):
        return self.ensure(label, value_eq(self.rt, a, b))

    def ensure_raises(self, label, out, name):
        if out[0] == "raise" and out[1] == name:
            self.ensure(label, True)
        else:
            self.fail(label + " (got %s)" % (out[1] if out[0] == "raise" else "a value"))

    def ensure_ok(self, label, out):
        if out[0] == "ok":
            self.ensure(label, True)
            return out[1]
        self.fail(label + " (raised %s)" % out[1])
        raise PathEnd()


def exc_name(e):
    return e.exc.cls.name if isinstance(e.exc, Obj) else type(e.exc).__name__


def formula(f):
    if isinstance(f, S):
        return f.e if sort_of(f.e) == "b" else f.e != 0
    if isinstance(f, (bool, np.bool_)):
        return z3.BoolVal(bool(f))
    if z3.is_bool(f):
        return f
    raise Unsupported("not a formula: %r" % (f,))


def value_eq(rt, a, b):
    """Structural equality of values as a formula (False if the shapes differ)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([value_eq(rt, x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            if isinstance(a, np.ndarray) and a.shape == () and is_num(b):
                return value_eq(rt, a[()], b)
            return z3.BoolVal(False)
        return z3.And([value_eq(rt, x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())] + [z3.BoolVal(True)])
    if is_num(a) and is_num(b):
        if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
            (p, q), (r, s) = cparts(a), cparts(b)
            return z3.And(eqz(p, r), eqz(q, s))
        return eqz(a, b)
    return formula(rt.eq(a, b))


def real_array(rows):
    a = np.array(rows, dtype=object)
    return a


def sq(v):
    return arith("*", v, v)


def add(*xs):
    r = 0
    for x in xs:
        r = arith("+", r, x) if is_num(r) else r + x
    return r


def sub(a, b):
    return arith("-", a, b)


def mul(*xs):
    r = 1
    for x in xs:
        r = arith("*", r, x)
    return r


def lt(a, b): return formula(compare("<", a, b))
def le(a, b): return formula(compare("<=", a, b))
def gt(a, b): return formula(compare(">", a, b))
def ge(a, b): return formula(compare(">=", a, b))
def eq(a, b): return formula(compare("==", a, b))


def task(name, functions=(), **kw):
    """Decorator: body(h)."""
    def deco(f):
        return Task(name, lambda rt, c: f(H(rt, c)), functions, **kw)
    return deco
