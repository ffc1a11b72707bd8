"""Symbolic values and the path context of the verifier.

S   : a scalar whose value is a z3 term (Bool, Int, Real or 64-bit BitVec)
Cx  : a complex number with real/imaginary parts (S / Fraction)
Ctx : one execution path: decision script, path condition, obligations

Numbers: Python ints are mathematical integers, floats are mathematical reals
(literals are taken at their exact binary value), occupation-number kets and
masks are 64-bit vectors.  These are assumptions reported in the evidence.
"""
import time
from fractions import Fraction

import numpy as np
import z3

BW = 64


class Unsupported(Exception):
    """A construct outside the verified subset: the obligation is undecided."""


class PathEnd(Exception):
    """This path is finished (loop body re-established the invariant, or infeasible)."""


class PyRaise(Exception):
    """An exception raised by the verified program."""

    def __init__(self, exc, where=""):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.where = where


class Ctx:
    cur = None

    def __init__(self, ver, script):
        self.ver = ver
        self.script = script
        self.pos = 0
        self.pc = []
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", ver.branch_timeout)
        self.n = 0
        self.pure = 0
        self.splits = []         # function calls whose paths are being enumerated in a pure context
        self.loops = []          # active cut loops
        self.trace = []          # human-readable path label
        self.data = {}           # contract scratch space

    # -- names ------------------------------------------------------------
    def name(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    # -- path condition ---------------------------------------------------
    def assume(self, f):
        f = tobool(f)
        if f is True:
            return
        if f is False:
            raise PathEnd()
        i = f.get_id()
        q = self.known.get(i)
        if q is not None and q < len(self.pc) and self.pc[q].get_id() == i:
            return                       # already there, in this scope or an outer one
        self.known[i] = len(self.pc)
        self.pc.append(f)
        self.solver.add(f)

    def feasible(self, f=None):
        self.solver.push()
        try:
            if f is not None:
                self.solver.add(f)
            t = time.time()
            r = self.solver.check()
            self.ver.branch_time += time.time() - t
            self.ver.branch_queries += 1
            self.ver.unanswered += r == z3.unknown
        finally:
            self.solver.pop()
        return r != z3.unsat

    def choose(self, n, label=""):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 0
            for alt in range(1, n):
                self.ver.todo.append(self.script[:self.pos] + [alt])
            self.script = self.script[:self.pos] + [0]
        self.pos += 1
        self.trace.append("%s%d" % (label, v))
        return v

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pure:
            if not self.feasible(z3.Not(cond)):
                return True
            if not self.feasible(cond):
                return False
            if self.splits:
                return self.splits[-1].decide(self, cond)
            raise Unsupported("branch on a symbolic value in a pure context: %s" % str(cond)[:120])
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            self.assume(cond if v == 0 else z3.Not(cond))
            return v == 0
        can_t = self.feasible(cond)
        can_f = self.feasible(z3.Not(cond))
        if can_t and can_f:
            self.ver.todo.append(self.script[:self.pos] + [1])
            self.script = self.script[:self.pos] + [0]
            self.pos += 1
            self.assume(cond)
            return True
        if not can_t and not can_f:
            raise PathEnd()
        # forced; keep the script aligned for re-execution
        self.script = self.script[:self.pos] + [0 if can_t else 1]
        self.pos += 1
        self.assume(cond if can_t else z3.Not(cond))
        return can_t

    def prove_now(self, f, timeout=None):
        """Quick internal entailment question (used to recognise shapes)."""
        f = tobool(f)
        if f is True:
            return True
        if f is False:
            return False
        return not self.feasible(z3.Not(f))


def ctx():
    return Ctx.cur


class Split:
    """The paths of one function call in a pure context: all are run, the results are merged by conditions."""
    births = 0

    def __init__(self):
        self.todo = [[]]
        self.born = Split.births
        self.wrote = False       # something older than the call was written
        self.forked = False

    def decide(self, c, cond):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            if self.wrote:
                raise Unsupported("branch after a write in a pure context: %s" % str(cond)[:100])
            v = 0
            self.forked = True
            self.todo.append(self.script + [1])
            self.script = self.script + [0]
            if len(self.todo) > 40:
                raise Unsupported("too many paths in a pure context")
        self.pos += 1
        f = cond if v == 0 else z3.Not(cond)
        self.conds.append(f)
        c.solver.add(f)
        c.pc.append(f)
        return v == 0

    def note_write(self, obj):
        if getattr(obj, "birth", -1) <= self.born:
            self.wrote = True
            if self.forked:
                raise Unsupported("write in one branch of a pure context")

    def run(self, c, body):
        out = []
        raised = None
        while self.todo:
            self.script, self.pos, self.conds = self.todo.pop(), 0, []
            n0 = len(c.pc)
            c.solver.push()
            c.splits.append(self)
            ok, v = True, None
            try:
                v = body()
            except PyRaise as e:
                ok, raised = False, e
            except PathEnd:
                ok = None
            finally:
                c.splits.pop()
                c.solver.pop()
                mine = {f.get_id() for f in self.conds}
                extra = [f for f in c.pc[n0:] if f.get_id() not in mine]
                del c.pc[n0:]
            for f in extra:
                c.assume(z3.Implies(z3.And(self.conds), f) if self.conds else f)
            if ok is not None:
                out.append((list(self.conds), ok, v))
        if not out:
            raise PathEnd()
        if not any(ok for _, ok, _ in out):
            raise raised
        if not all(ok for _, ok, _ in out):
            raise Unsupported("exception on one path in a pure context: %r" % (raised.exc,))
        r = out[-1][2]
        for conds, _, v in reversed(out[:-1]):
            r = ite(S(z3.And(conds)), v, r)
        return r


# ---------------------------------------------------------------------------
# lifting
def fval(v):
    """Exact real value of a concrete number as z3."""
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (bool, np.bool_)):
        return z3.RealVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.RealVal(int(v))
    return z3.RealVal(Fraction(float(v)))


def is_num(v):
    return isinstance(v, (bool, int, float, complex, Fraction, np.number, np.bool_, S, Cx))


def is_real_sort(e):
    return z3.is_real(e)


def tobool(f):
    if isinstance(f, S):
        f = f.e
    if isinstance(f, (bool, np.bool_)):
        return bool(f)
    if z3.is_bool(f):
        g = z3.simplify(f)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return f
    raise Unsupported("not a formula: %r" % (f,))


def z(v):
    """z3 term of a scalar."""
    if isinstance(v, S):
        return v.e
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, (float, np.floating, Fraction)):
        return fval(v)
    raise Unsupported("no z3 term for %r" % (v,))


def zi(v):
    e = z(v)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bv(e):
        return z3.BV2Int(e)
    return e


def zr(v):
    e = zi(v)
    if z3.is_int(e):
        return z3.ToReal(e) if not z3.is_int_value(e) else z3.RealVal(e.as_long())
    return e


def zbv(v):
    if isinstance(v, S):
        if z3.is_bv(v.e):
            return v.e
        if z3.is_bool(v.e):
            return z3.If(v.e, z3.BitVecVal(1, BW), z3.BitVecVal(0, BW))
        if z3.is_int_value(v.e):
            return z3.BitVecVal(v.e.as_long(), BW)
        return z3.Int2BV(v.e, BW)
    if isinstance(v, (bool, int, np.integer)):
        return z3.BitVecVal(int(v), BW)
    raise Unsupported("no bit-vector for %r" % (v,))


def sort_of(e):
    if z3.is_bool(e):
        return "b"
    if z3.is_bv(e):
        return "v"
    if z3.is_int(e):
        return "i"
    if z3.is_real(e):
        return "r"
    raise Unsupported("sort of %s" % e)


def wrap(e):
    if isinstance(e, z3.ExprRef):
        return S(e)
    return e


class S:
    """Symbolic scalar."""
    __slots__ = ("e", "pyt", "src")
    __array_priority__ = 100

    def __init__(self, e, pyt=None):
        self.e = e
        self.src = None
        self.pyt = pyt

    @property
    def pytype(self):
        if self.pyt is not None:
            return self.pyt
        return {"b": bool, "i": int, "r": float, "v": int}[sort_of(self.e)]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        e = self.e
        k = sort_of(e)
        if k == "b":
            return ctx().branch(e)
        if k == "v":
            return ctx().branch(e != 0)
        return ctx().branch(e != 0)

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return "S(%s)" % str(self.e)[:200]

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("symbolic value used as a concrete index: %s" % str(e)[:80])

    __int__ = None

    # arithmetic
    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o)
    def __rmul__(self, o): return arith("*", o, self)
    def __truediv__(self, o): return arith("/", self, o)
    def __rtruediv__(self, o): return arith("/", o, self)
    def __floordiv__(self, o): return arith("//", self, o)
    def __rfloordiv__(self, o): return arith("//", o, self)
    def __mod__(self, o): return arith("%", self, o)
    def __rmod__(self, o): return arith("%", o, self)
    def __pow__(self, o): return arith("**", self, o)
    def __rpow__(self, o): return arith("**", o, self)
    def __lshift__(self, o): return arith("<<", self, o)
    def __rlshift__(self, o): return arith("<<", o, self)
    def __rshift__(self, o): return arith(">>", self, o)
    def __rrshift__(self, o): return arith(">>", o, self)
    def __and__(self, o): return arith("&", self, o)
    def __rand__(self, o): return arith("&", o, self)
    def __or__(self, o): return arith("|", self, o)
    def __ror__(self, o): return arith("|", o, self)
    def __xor__(self, o): return arith("^", self, o)
    def __rxor__(self, o): return arith("^", o, self)

    def __neg__(self):
        if sort_of(self.e) == "v":
            return S(-self.e)
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        if sort_of(self.e) == "b":
            return S(z3.Not(self.e))
        if sort_of(self.e) == "i":
            return arith("-", -1, self)
        return S(~self.e)

    def __abs__(self):
        e = self.e
        if sort_of(e) == "v":
            return self
        return S(z3.If(e >= 0, e, -e))

    # comparisons return S(Bool)
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)
    def __lt__(self, o): return compare("<", self, o)
    def __le__(self, o): return compare("<=", self, o)
    def __gt__(self, o): return compare(">", self, o)
    def __ge__(self, o): return compare(">=", self, o)

    # numpy-scalar / complex interface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    # object-dtype ufuncs call these
    def sqrt(self):
        from . import npmodel
        return npmodel.sqrt1(self)

    def sin(self):
        from . import npmodel
        return npmodel.trig("sin", self)

    def cos(self):
        from . import npmodel
        return npmodel.trig("cos", self)


class Cx:
    """Complex number with exact parts."""
    __slots__ = ("re", "im")
    __array_priority__ = 100
    pytype = complex

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "Cx(%r,%r)" % (self.re, self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return Cx(self.re, -self.im if not isinstance(self.im, S) else -self.im)

    conj = conjugate

    def __bool__(self):
        return bool(compare("!=", self, 0))

    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o)
    def __rmul__(self, o): return arith("*", o, self)
    def __truediv__(self, o): return arith("/", self, o)
    def __rtruediv__(self, o): return arith("/", o, self)
    def __neg__(self): return arith("-", 0, self)
    def __pos__(self): return self
    def __eq__(self, o): return compare("==", self, o)
    def __ne__(self, o): return compare("!=", self, o)


def cparts(v):
    if isinstance(v, Cx):
        return v.re, v.im
    if isinstance(v, (complex, np.complexfloating)):
        v = complex(v)
        return Fraction(v.real), Fraction(v.imag)
    if isinstance(v, (float, np.floating)):
        return Fraction(float(v)), 0
    return v, 0


def mkcx(re, im):
    return Cx(re, im)


def _conc(v):
    return not isinstance(v, (S, Cx))


def arith(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if isinstance(a, (Cx, complex, np.complexfloating)) or isinstance(b, (Cx, complex, np.complexfloating)):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        if op == "+":
            return Cx(ar + br, ai + bi)
        if op == "-":
            return Cx(ar - br, ai - bi)
        if op == "*":
            return Cx(mul0(ar, br) - mul0(ai, bi), mul0(ar, bi) + mul0(ai, br))
        if op == "/":
            if _conc(bi) and bi == 0:
                return Cx(ar / fr(br), ai / fr(br))
            den = br * br + bi * bi
            return Cx((ar * br + ai * bi) / den, (ai * br - ar * bi) / den)
        if op == "**" and isinstance(b, int) and b >= 0:
            r = 1
            for _ in range(b):
                r = arith("*", a, r)
            return r
        raise Unsupported("complex %s" % op)
    ka = sort_of(z(a)) if isinstance(a, S) else None
    kb = sort_of(z(b)) if isinstance(b, S) else None
    if ka is None and kb is None:
        return _native(op, a, b)
    # bit-vectors
    if ka == "v" or kb == "v":
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)) or ka == "r" or kb == "r":
            return arith(op, S(zr(a)), S(zr(b)))
        if (ka == "i" and not z3.is_int_value(a.e)) or (kb == "i" and not z3.is_int_value(b.e)):
            if op in ("+", "-", "*", "//", "%"):
                return arith(op, S(zi(a)), S(zi(b)))
        x, y = zbv(a), zbv(b)
        if op in ("+", "-", "*", "&", "|", "^"):
            return S({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y,
                      "|": lambda: x | y, "^": lambda: x ^ y}[op]())
        if op == "<<":
            return S(x << y)
        if op == ">>":
            return S(z3.LShR(x, y))
        if op == "//":
            return S(z3.UDiv(x, y))
        if op == "%":
            return S(z3.URem(x, y))
        raise Unsupported("bit-vector %s" % op)
    # booleans
    if op in ("&", "|", "^"):
        ba = ka == "b" or isinstance(a, (bool, np.bool_))
        bb = kb == "b" or isinstance(b, (bool, np.bool_))
        if ba and bb:
            x, y = z(a), z(b)
            return S({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y))
        if ba and isinstance(b, int) and b in (0, 1):
            return arith(op, a, bool(b)) if op != "^" else S(zi(S(z3.Xor(z(a), z3.BoolVal(bool(b))))))
        if bb and isinstance(a, int) and a in (0, 1):
            return arith(op, b, a)
        x, y = (a, b) if isinstance(a, S) else (b, a)
        ex = zi(x)
        if isinstance(y, int) and y == 1:
            if op == "&":
                return S(ex % 2)
            if op == "^":
                return S(ex + 1 - 2 * (ex % 2))
            return S(ex + 1 - ex % 2)
        if isinstance(y, int) and y == 0:
            return S(ex) if op != "&" else 0
        if op == "^":
            # both known to be 0/1
            ey = zi(y)
            c = ctx()
            if c.prove_now(z3.And(ex >= 0, ex <= 1, ey >= 0, ey <= 1)):
                return S(z3.If(ex == ey, z3.IntVal(0), z3.IntVal(1)))
        raise Unsupported("integer %s" % op)
    if op in ("<<", ">>"):
        if isinstance(b, int):
            return arith("*" if op == "<<" else "//", a, 1 << b)
        f = pow2(zi(b))
        if op == "<<":
            return S(zi(a) * f)
        if isinstance(a, int) and a in (0, 1):
            return S(z3.If(zi(b) == 0, z3.IntVal(a), z3.IntVal(0)))
        return S(zi(a) / f)
    real = ka == "r" or kb == "r" or isinstance(a, (float, Fraction, np.floating)) or isinstance(b, (float, Fraction, np.floating))
    if op == "/":
        real = True
    if op == "**":
        if isinstance(b, (int, np.integer)) and 0 <= b <= 8:
            r = 1
            for _ in range(int(b)):
                r = arith("*", a, r)
            return r
        if isinstance(b, float) and b == 0.5:
            return S(z(a)).sqrt()
        return power(a, b)
    x, y = (zr(a), zr(b)) if real else (zi(a), zi(b))
    if op == "+":
        return S(x + y)
    if op == "-":
        return S(x - y)
    if op == "*":
        if _conc(a) and a == 0 or _conc(b) and b == 0:
            return 0
        return S(x * y)
    if op == "/":
        nz = z3.simplify(y != 0)
        if not z3.is_true(nz):
            ctx().ver.safety(ctx(), "division by a non-zero value", y != 0)
        return S(x / y)
    if op in ("//", "%"):
        if real:
            raise Unsupported("floor division of reals")
        if not ctx().prove_now(y > 0):
            raise Unsupported("// by a possibly non-positive value")
        return S(x / y) if op == "//" else S(x % y)
    raise Unsupported("operator %s" % op)


_POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(n):
    t = _POW2(n)
    c = ctx()
    if c is not None:
        c.assume(z3.Implies(n >= 0, z3.And(t >= 1, (t == 1) == (n == 0))))
    return t


_POWER = z3.Function("ipow", z3.IntSort(), z3.IntSort(), z3.IntSort())


def power(a, b):
    x, y = zi(a), zi(b)
    if z3.is_int(x) and z3.is_int(y):
        c = ctx()
        if c is None:
            raise Unsupported("integer power with a possibly negative exponent")
        if not c.branch(y >= 0):
            n = z3.simplify(-y)
            if not (z3.is_int_value(x) and x.as_long() >= 1):
                raise Unsupported("integer power with a possibly negative exponent")
            return S(1 / z3.ToReal(power(x, n).e))          # x ** -n is the float 1 / x ** n
        if z3.is_int_value(x) and x.as_long() == 2:
            return S(pow2(y))
        if z3.is_int_value(x) and x.as_long() >= 1:
            c.assume(_POWER(x, y) >= 1)
        c.assume(z3.And(z3.Implies(y == 0, _POWER(x, y) == 1), z3.Implies(y > 0, _POWER(x, y) == x * _POWER(x, y - 1))))
        return S(_POWER(x, y))
    raise Unsupported("power")


def mul0(a, b):
    if _conc(a) and a == 0 or _conc(b) and b == 0:
        return 0
    return a * b


def fr(v):
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (float, np.floating)):
        return Fraction(float(v))
    return v


def _native(op, a, b):
    if isinstance(a, Fraction) and isinstance(b, float):
        b = Fraction(b)
    if isinstance(b, Fraction) and isinstance(a, float):
        a = Fraction(a)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: (fr(a) / fr(b)),
            "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, "<<": lambda: a << b,
            ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()


def compare(op, a, b):
    if isinstance(a, (Cx, complex, np.complexfloating)) or isinstance(b, (Cx, complex, np.complexfloating)):
        if not (is_num(a) and is_num(b)):
            return {"==": False, "!=": True}[op]
        ar, ai = cparts(a)
        br, bi = cparts(b)
        eq = z3.And(eqz(ar, br), eqz(ai, bi))
        if op == "==":
            return S(eq)
        if op == "!=":
            return S(z3.Not(eq))
        raise Unsupported("ordering of complex numbers")
    if not is_num(a) or not is_num(b):
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if _conc(a) and _conc(b):
        if isinstance(a, float):
            a = Fraction(a)
        if isinstance(b, float):
            b = Fraction(b)
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    ka = sort_of(z(a)) if isinstance(a, S) else None
    kb = sort_of(z(b)) if isinstance(b, S) else None
    if ka == "v" or kb == "v":
        if (ka in ("v", None) and kb in ("v", None)) and not isinstance(a, (float, Fraction)) and not isinstance(b, (float, Fraction)):
            x, y = zbv(a), zbv(b)
            return S({"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: z3.ULT(x, y),
                      "<=": lambda: z3.ULE(x, y), ">": lambda: z3.UGT(x, y), ">=": lambda: z3.UGE(x, y)}[op]())
    if op in ("==", "!=") and (ka == "b" or isinstance(a, bool)) and (kb == "b" or isinstance(b, bool)):
        e = z(a) == z(b)
        return S(e if op == "==" else z3.Not(e))
    x, y = zi(a), zi(b)
    if z3.is_real(x) or z3.is_real(y):
        x, y = zr(a), zr(b)
    return S({"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
              ">": lambda: x > y, ">=": lambda: x >= y}[op]())


def eqz(a, b):
    """z3 formula a == b for scalars."""
    r = compare("==", a, b)
    return r.e if isinstance(r, S) else z3.BoolVal(bool(r))


def ite(c, a, b):
    """Value-level if-then-else on scalars (also complex, tuples, lists of equal length)."""
    if isinstance(c, S):
        c = c.e
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    f = getattr(a, "m_ite", None)
    if f is not None:
        return f(c, b)
    if not (is_num(a) and is_num(b)):
        raise Unsupported("cannot merge %r and %r" % (type(a), type(b)))
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        ar, ai = cparts(a)
        br, bi = cparts(b)
        return Cx(ite(c, ar, br), ite(c, ai, bi))
    if _conc(a) and _conc(b) and type(a) is type(b) and a == b:
        return a
    ka, kb = sort_of(z(a)), sort_of(z(b))
    if ka == kb:
        return S(z3.If(c, z(a), z(b)))
    if "v" in (ka, kb) and "r" not in (ka, kb):
        return S(z3.If(c, zbv(a), zbv(b)))
    if "r" in (ka, kb):
        return S(z3.If(c, zr(a), zr(b)))
    return S(z3.If(c, zi(a), zi(b)))


def fresh(kind, base):
    n = ctx().name(base)
    return S({"i": z3.Int, "r": z3.Real, "b": z3.Bool, "v": lambda q: z3.BitVec(q, BW)}[kind](n))


def trunc(v):
    """Python int(): truncation toward zero."""
    if isinstance(v, S):
        k = sort_of(v.e)
        if k == "r":
            return S(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if k == "b":
            return S(zi(v))
        return v
    if isinstance(v, Fraction):
        return int(v)
    return int(v)


def _feasible_sure(self):
    """True if the path condition is certainly satisfiable (vacuity check)."""
    self.solver.push()
    try:
        return self.solver.check() != z3.unsat
    finally:
        self.solver.pop()


Ctx.feasible_sure = _feasible_sure
Ctx.abstract = False
Ctx.loading = False
