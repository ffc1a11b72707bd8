"""numpy / scipy contracts (trusted models).

Arrays of known shape are numpy object arrays holding exact values (ints,
Fractions, symbolic reals, complex pairs); numpy itself does the shape
bookkeeping (views, broadcasting, reshaping), so aliasing is the real thing.
Arrays of unknown shape are in sarr.py.
"""
import math as _math
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import (S, Cx, Unsupported, PyRaise, arith, compare, ite, fresh, is_num, ctx, z, zi, zr, zbv, sort_of,
                  trunc, fr, cparts, tobool)

INF = float("inf")
PI = S(z3.Real("pi"), float)


def ver():
    return _RT.ver


_RT = None


# -- scalars -----------------------------------------------------------------
_SQRT = {}


def sqrt1(v):
    if isinstance(v, np.ndarray):
        return mapa(sqrt1, v)
    v = fr(v)
    if isinstance(v, Fraction):
        if v < 0:
            raise Unsupported("sqrt of a negative number")
        n, d = _math.isqrt(v.numerator), _math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return Fraction(n, d)
        s = z3.Real("sqrt[%s]" % v)
        lo = Fraction(_math.isqrt(v.numerator * v.denominator * 10 ** 24), v.denominator * 10 ** 12)
        ver().add_axiom("sqrt[%s]" % v, z3.And(s * s == z3.RealVal(v), s > 0, s >= z3.RealVal(lo),
                                                s <= z3.RealVal(lo + Fraction(1, 10 ** 12))))
        return S(s)
    if isinstance(v, S):
        e = z3.simplify(zr(v))
        if z3.is_rational_value(e):
            return sqrt1(e.as_fraction())
        c = ctx()
        cache = c.data.setdefault("sqrt", {})
        k = e.get_id()
        for x, s in cache.get(k, []):
            if x.eq(e):
                return S(s)
        if not c.prove_now(e >= 0):
            ver().safety(c, "square root of a non-negative value", e >= 0)
            c.assume(e >= 0)
        s = z3.Real(c.name("sqrt"))
        c.assume(z3.And(s * s == e, s >= 0))
        cache.setdefault(k, []).append((e, s))
        return S(s)
    raise Unsupported("sqrt of %r" % (v,))


SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
_TAB = {0: (0, 1), 30: ("1/2", "r3"), 45: ("r2", "r2"), 60: ("r3", "1/2"), 90: (1, 0)}


def _tabval(x):
    if x == "1/2":
        return Fraction(1, 2)
    if x == "r3":
        return arith("/", sqrt1(Fraction(3)), 2)
    if x == "r2":
        return arith("/", sqrt1(Fraction(2)), 2)
    return Fraction(x)


def pi_multiple(e):
    """e == q*pi with rational q?"""
    q = z3.simplify(z3.substitute(e, (PI.e, z3.RealVal(1))))
    z0 = z3.simplify(z3.substitute(e, (PI.e, z3.RealVal(0))))
    if z3.is_rational_value(q) and z3.is_rational_value(z0) and z0.as_fraction() == 0:
        q2 = z3.simplify(z3.substitute(e, (PI.e, z3.RealVal(2))))
        if z3.is_rational_value(q2) and q2.as_fraction() == 2 * q.as_fraction():
            return q.as_fraction()
    return None


def trig(name, v):
    if isinstance(v, np.ndarray):
        return mapa(lambda x: trig(name, x), v)
    if not is_num(v) or isinstance(v, (Cx, complex)):
        raise Unsupported("%s of %r" % (name, v))
    e = z3.simplify(zr(v), som=True)
    q = pi_multiple(e) if not z3.is_rational_value(e) else (Fraction(0) if e.as_fraction() == 0 else None)
    if q is not None:
        d = (q * 180) % 360
        if d.denominator == 1 and int(d) % 30 == 0 or d == 45 or d == 135 or d == 225 or d == 315:
            d = int(d)
            base = d % 90 if d % 90 else 0
            s, c = {0: (0, 1), 30: ("1/2", "r3"), 45: ("r2", "r2"), 60: ("r3", "1/2")}[base]
            s, c = _tabval(s), _tabval(c)
            for _ in range(d // 90):
                s, c = c, arith("-", 0, s)
            return s if name == "sin" else c
    c = ctx()
    key = ("trig", e.get_id())
    s_, c_ = SIN(e), COS(e)
    if key not in c.data:
        c.data[key] = e
        c.assume(s_ * s_ + c_ * c_ == 1)
    return S(s_ if name == "sin" else c_)


ATAN2 = z3.Function("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())


def arctan2(rt, y, x):
    if isinstance(y, np.ndarray) or isinstance(x, np.ndarray):
        return map2(lambda a, b: arctan2(rt, a, b), y, x)
    return S(ATAN2(zr(y), zr(x)))


ROUND = z3.Function("around", z3.RealSort(), z3.IntSort(), z3.RealSort())
RINT = z3.Function("rint", z3.RealSort(), z3.IntSort())


def around(rt, v, nd=0):
    if isinstance(v, np.ndarray):
        return mapa(lambda x: around(rt, x, nd), v)
    if isinstance(v, Cx):
        return Cx(around(rt, v.re, nd), around(rt, v.im, nd))
    if not is_num(v):
        raise Unsupported("around")
    if isinstance(v, Fraction) and isinstance(nd, int):
        return Fraction(round(v * 10 ** nd), 1) / (Fraction(10) ** nd)
    r = ROUND(zr(v), zi(nd))
    return S(r)


def rint(rt, v):
    """Nearest integer (ties to even): |result - v| <= 1/2."""
    if isinstance(v, np.ndarray):
        return mapa(lambda x: rint(rt, x), v)
    if isinstance(v, (int, Fraction)):
        return Fraction(round(Fraction(v)))
    e = z3.simplify(zr(v))
    r = RINT(e)
    ctx().assume(z3.And(z3.ToReal(r) - e <= z3.RealVal("1/2"), e - z3.ToReal(r) <= z3.RealVal("1/2")))
    return S(z3.ToReal(r))


def round_(rt, v, nd=None):
    if isinstance(v, np.ndarray):
        return around(rt, v, nd or 0)
    if nd is None:
        if isinstance(v, (int, Fraction)):
            return round(v)
        r = rint(rt, v)
        return S(RINT(z3.simplify(zr(v))))
    return around(rt, v, nd)


def abs_(rt, v):
    if isinstance(v, np.ndarray):
        return mapa(lambda x: abs_(rt, x), v)
    if isinstance(v, Cx):
        return sqrt1(arith("+", arith("*", v.re, v.re), arith("*", v.im, v.im)))
    if is_num(v):
        return abs(v)
    r = rt.seqs.elementwise(rt, "abs", v)
    if r is not NotImplemented:
        return r
    raise PyRaise(TypeError("abs"))


def negate(rt, v):
    if isinstance(v, np.ndarray):
        return mapa(lambda x: negate(rt, x), v)
    if isinstance(v, bool):
        return -int(v)
    if is_num(v):
        return -v
    r = rt.seqs.elementwise(rt, "neg", v)
    if r is not NotImplemented:
        return r
    raise PyRaise(TypeError("bad operand type for unary -"))


def invert(rt, v):
    if isinstance(v, np.ndarray):
        return mapa(lambda x: invert(rt, x), v)
    if isinstance(v, S):
        return ~v
    if isinstance(v, np.bool_):
        return not v
    if isinstance(v, int):
        return ~v
    r = rt.seqs.elementwise(rt, "invert", v)
    if r is not NotImplemented:
        return r
    raise PyRaise(TypeError("bad operand type for unary ~"))


# -- arrays ----------------------------------------------------------------------
def mapa(f, a):
    out = np.empty(a.shape, dtype=object)
    fo = out.reshape(-1) if out.ndim else None
    if out.ndim == 0:
        out[()] = f(a[()])
        return out[()]
    for i, x in enumerate(a.reshape(-1)):
        fo[i] = f(x)
    return out


def asobj(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        return v
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def map2(f, a, b):
    a, b = asobj(a), asobj(b)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError as e:
        raise PyRaise(e)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    if out.ndim == 0:
        return out[()]
    return out


def scal(x):
    if isinstance(x, (float, np.floating)) and x == x and abs(x) != INF:
        return Fraction(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        return Cx(Fraction(x.real), Fraction(x.imag))
    return x


def tolists(rt, v):
    """Nested Python lists of scalars, or a model object of unknown length."""
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (list, tuple, range)):
        return [tolists(rt, x) for x in v]
    if is_num(v):
        return scal(v)
    if isinstance(v, rt_obj()):
        raise Unsupported("array of objects")
    if v is None or isinstance(v, str):
        return v
    if rt.seqs.symbolic_iter(rt, v) is not None:
        raise Symbolic(v)
    if hasattr(v, "__next__"):
        raise Unsupported("array of a generator")
    raise Unsupported("array of %r" % (v,))


class Symbolic(Exception):
    pass


def rt_obj():
    from .interp import Obj
    return Obj


def shape_of(v):
    if isinstance(v, np.ndarray):
        return v.shape
    if isinstance(v, list):
        if not v:
            return (0,)
        s = shape_of(v[0])
        for x in v[1:]:
            if shape_of(x) != s:
                raise PyRaise(ValueError("setting an array element with a sequence"))
        return (len(v),) + s
    return ()


def build(rt, v):
    v = tolists(rt, v)
    shp = shape_of(v)
    out = np.empty(shp, dtype=object)

    def fill(pos, x):
        if isinstance(x, np.ndarray):
            for i in np.ndindex(*x.shape):
                out[pos + i] = x[i]
        elif isinstance(x, list):
            for i, y in enumerate(x):
                fill(pos + (i,), y)
        else:
            out[pos] = x
    fill((), v)
    return out


def cast1(x, dt):
    if dt is None or dt is object:
        return x
    name = dtname(dt)
    if name is None:
        return x
    if name == "f":
        if isinstance(x, S):
            return S(zr(x), float)
        if isinstance(x, Cx):
            raise Unsupported("complex to real cast")
        if isinstance(x, float):
            return x
        return Fraction(x)
    if name == "i":
        if isinstance(x, (S, Fraction)):
            return trunc(x)
        return int(x)
    if name == "u":
        if isinstance(x, S):
            return S(zbv(x))
        if isinstance(x, Fraction):
            x = int(x)
        return S(z3.BitVecVal(int(x), sym.BW))
    if name == "c":
        re, im = cparts(x)
        return Cx(fr(re) if not isinstance(re, S) else re, im)
    if name == "b":
        if isinstance(x, S):
            return S(x.e if sort_of(x.e) == "b" else x.e != 0)
        return bool(x)
    return x


class DType:
    """np.float64 and friends: usable as dtype, in isinstance and as a conversion."""


DTYPES = {"float64": np.float64, "float32": np.float32, "float_": np.float64, "double": np.float64, "complex128": np.complex128, "complex64": np.complex64,
          "complex_": np.complex128, "int64": np.int64, "int32": np.int32, "int_": np.int64, "intp": np.int64, "uint64": np.uint64, "uint32": np.uint32, "uint8": np.uint8, "int8": np.int8,
          "bool_": np.bool_}


def narrow(dt):
    """Numbers are exact here: a type that drops digits or wraps is outside what is modelled."""
    if dt.kind in "fiuc" and dt.itemsize < (16 if dt.kind == "c" else 8):
        raise Unsupported("narrow number type %s" % dt)


def dtname(dt):
    if dt is None:
        return None
    if isinstance(dt, str):
        try:
            dt = np.dtype(dt)
        except TypeError:
            raise Unsupported("dtype %s" % dt)
    if dt is float:
        return "f"
    if dt is int:
        return "i"
    if dt is complex:
        return "c"
    if dt is bool:
        return "b"
    if isinstance(dt, np.dtype):
        k = dt.kind
        narrow(dt)
        return {"f": "f", "i": "i", "u": "u", "c": "c", "b": "b", "O": None}.get(k)
    if isinstance(dt, type) and issubclass(dt, np.generic):
        if dt is np.uint64:
            return "u"
        narrow(np.dtype(dt))
        return {"f": "f", "i": "i", "u": "i", "c": "c", "b": "b"}.get(np.dtype(dt).kind)
    raise Unsupported("dtype %r" % (dt,))


def item(a, i):
    x = a[i]
    return x


def pyidx(i):
    if isinstance(i, tuple):
        return tuple(pyidx(x) for x in i)
    if isinstance(i, S):
        e = z3.simplify(i.e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        return i
    if isinstance(i, list):
        return [pyidx(x) for x in i]
    if isinstance(i, slice):
        f = lambda x: pyidx(x) if x is not None else None
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, Fraction):
        raise PyRaise(IndexError("only integers are valid indices"))
    if isinstance(i, np.ndarray):
        if i.dtype == object:
            xs = [pyidx(x) for x in i.reshape(-1)]
            if all(isinstance(x, bool) for x in xs):
                return np.array(xs, dtype=bool).reshape(i.shape)
            if all(isinstance(x, int) for x in xs):
                return np.array(xs, dtype=int).reshape(i.shape)
            return i
        return i
    return i


def has_sym_index(i):
    if isinstance(i, tuple):
        return any(has_sym_index(x) for x in i)
    if isinstance(i, (list,)):
        return any(has_sym_index(x) for x in i)
    if isinstance(i, np.ndarray):
        return i.dtype == object
    if isinstance(i, slice):
        return any(isinstance(x, S) for x in (i.start, i.stop, i.step))
    return isinstance(i, S)


def get_item(rt, a, i):
    if not isinstance(a, np.ndarray):
        return NotImplemented
    j = pyidx(i)
    if not has_sym_index(j):
        if isinstance(j, str):
            raise PyRaise(IndexError("only integers"))
        try:
            return a[j]
        except IndexError as e:
            raise PyRaise(e)
    # one symbolic integer index on the first axis (optionally followed by concrete ones)
    first, rest = (j[0], j[1:]) if isinstance(j, tuple) else (j, ())
    if isinstance(first, S) and sort_of(first.e) in ("i", "v") and not has_sym_index(rest):
        n = a.shape[0]
        e = zi(first)
        if not rt.truth(S(z3.And(e >= -n, e < n))):
            raise PyRaise(IndexError("index out of bounds"))
        rows = [a[(k,) + tuple(rest)] for k in range(n)]
        if isinstance(rows[0], np.ndarray):
            out = np.empty(rows[0].shape, dtype=object)
            for p in np.ndindex(*out.shape):
                out[p] = _select(e, [r[p] for r in rows], n)
            return out
        return _select(e, rows, n)
    if isinstance(j, tuple) and len(j) == 2 and isinstance(j[1], S) and isinstance(j[0], (int, slice)):
        sub = a[j[0]]
        if isinstance(sub, np.ndarray) and sub.ndim == 1:
            return get_item(rt, sub, j[1])
    if isinstance(first, np.ndarray) and first.ndim == 1 and rest == () and all(isinstance(x, (S, bool)) and (isinstance(x, bool) or sort_of(x.e) == "b") for x in first):
        # boolean mask with symbolic entries: decide each entry
        keep = [k for k in range(len(first)) if rt.truth(first[k])]
        return a[keep]
    raise Unsupported("symbolic array index")


def _select(e, rows, n):
    r = rows[n - 1]
    for k in range(n - 2, -1, -1):
        r = ite(z3.Or(e == k, e == k - n), rows[k], r)
    return r


def base_of(a):
    while isinstance(a, np.ndarray) and a.base is not None and isinstance(a.base, np.ndarray):
        a = a.base
    return a


def set_item(rt, a, i, v):
    if not isinstance(a, np.ndarray):
        return False
    rt.ver.note_write(base_of(a), None)
    j = pyidx(i)
    if has_sym_index(j):
        first, rest = (j[0], j[1:]) if isinstance(j, tuple) else (j, ())
        if isinstance(first, S) and not has_sym_index(rest) and is_num(v):
            n = a.shape[0]
            e = zi(first)
            if not rt.truth(S(z3.And(e >= -n, e < n))):
                raise PyRaise(IndexError("index out of bounds"))
            for k in range(n):
                p = (k,) + tuple(rest)
                cur = a[p]
                if isinstance(cur, np.ndarray):
                    raise Unsupported("symbolic row store")
                a[p] = ite(z3.Or(e == k, e == k - n), v, cur)
            return True
        raise Unsupported("store at a symbolic index")
    if not isinstance(v, np.ndarray):
        v = build(rt, v) if isinstance(v, (list, tuple)) else scal(v)
    try:
        a[j] = v
    except (IndexError, ValueError) as e:
        raise PyRaise(e)
    return True


def binop(rt, op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        r = rt.seqs.binop_model(rt, op, a, b)
        if r is not NotImplemented:
            return r
        if op == "@":
            return matmul(rt, a, b)
        if isinstance(a, (list, tuple)):
            a = build(rt, a)
        if isinstance(b, (list, tuple)):
            b = build(rt, b)
        for v in (a, b):
            if not isinstance(v, np.ndarray) and not is_num(v):
                raise PyRaise(TypeError("unsupported operand for array %s" % op)) if v is None or isinstance(v, str) else Unsupported("array %s %r" % (op, v))
        return map2(lambda x, y: rt.binop(op, x, y), a, b)
    return NotImplemented


def compare_(rt, op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return {"==": False, "!=": True}[op]
        if isinstance(a, (list, tuple)):
            a = build(rt, a)
        if isinstance(b, (list, tuple)):
            b = build(rt, b)
        for v in (a, b):
            if not isinstance(v, np.ndarray) and not is_num(v):
                raise Unsupported("array comparison with %r" % (v,))
        return map2(lambda x, y: rt.rich(op, x, y), a, b)
    return NotImplemented


def inplace(rt, op, a, b):
    if isinstance(a, np.ndarray):
        r = binop(rt, op, a, b)
        if r.shape != a.shape:
            raise PyRaise(ValueError("non-broadcastable output operand"))
        rt.ver.note_write(base_of(a), None)
        a[...] = r
        return a
    return NotImplemented


def dot1(rt, u, v):
    acc = 0
    for x, y in zip(u, v):
        acc = rt.binop("+", acc, rt.binop("*", x, y))
    return acc


def matmul(rt, a, b, dot=False):
    if not isinstance(a, np.ndarray):
        a = build(rt, a) if isinstance(a, (list, tuple)) else a
    if not isinstance(b, np.ndarray):
        b = build(rt, b) if isinstance(b, (list, tuple)) else b
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        if dot:
            return rt.binop("*", a, b)
        raise PyRaise(ValueError("matmul of scalars"))
    if a.ndim == 0 or b.ndim == 0:
        if dot:
            return rt.binop("*", a, b)
        raise PyRaise(ValueError("matmul of scalars"))
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of stacks")
    A = a if a.ndim == 2 else a[None, :]
    B = b if b.ndim == 2 else b[:, None]
    if A.shape[1] != B.shape[0]:
        raise PyRaise(ValueError("shapes not aligned"))
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = dot1(rt, A[i], B[:, j])
    if b.ndim == 1:
        out = out[:, 0]
    if a.ndim == 1:
        out = out[0]
    return out


def call_type(rt, f, args, kw):
    if isinstance(f, type) and issubclass(f, np.generic):
        v = args[0] if args else 0
        return cast1(scal(v), f)
    return NotImplemented


def conj1(x):
    if isinstance(x, Cx):
        return Cx(x.re, -x.im)
    return x


def red(rt, a, axis, f, keepdims=False):
    if axis is None:
        return f([x for x in a.reshape(-1)])
    if isinstance(axis, tuple):
        raise Unsupported("axis tuple")
    axis = int(axis) % a.ndim
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(m[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim else out[()]


def sum_l(rt, xs):
    acc = 0
    for x in xs:
        acc = rt.binop("+", acc, x)
    return acc


def all_l(rt, xs):
    ts = [rt.as_bool_term(x) for x in xs]
    e = z3.simplify(z3.And(*ts)) if ts else z3.BoolVal(True)
    return True if z3.is_true(e) else False if z3.is_false(e) else S(e)


def any_l(rt, xs):
    ts = [rt.as_bool_term(x) for x in xs]
    e = z3.simplify(z3.Or(*ts)) if ts else z3.BoolVal(False)
    return True if z3.is_true(e) else False if z3.is_false(e) else S(e)


def minmax_l(rt, xs, name, initial=None):
    xs = list(xs)
    if initial is not None:
        xs = [initial] + xs
    if not xs:
        raise PyRaise(ValueError("zero-size array to reduction operation"))
    best = xs[0]
    for x in xs[1:]:
        if isinstance(best, float) and abs(best) == INF:
            best = x if (best > 0) == (name == "min") else best
            continue
        if isinstance(x, float) and abs(x) == INF:
            best = best if (x > 0) == (name == "min") else x
            continue
        best = ite(rt.rich("<" if name == "min" else ">", x, best), x, best)
    return best


def norm(rt, a, axis=None):
    f = lambda xs: sqrt1(sum_l(rt, [arith("+", arith("*", x.re, x.re), arith("*", x.im, x.im)) if isinstance(x, Cx) else rt.binop("*", x, x) for x in xs]))
    return red(rt, a, axis, f)


METHODS = {}


def attribute(rt, o, name):
    from .interp import Native
    if isinstance(o, np.ndarray):
        if name == "shape":
            return o.shape
        if name == "ndim":
            return o.ndim
        if name == "size":
            return o.size
        if name == "T":
            return o.T
        if name == "real":
            return mapa(lambda x: cparts(x)[0], o)
        if name == "imag":
            return mapa(lambda x: cparts(x)[1], o)
        if name == "base":
            return o.base
        if name == "flat":
            return iter(list(o.reshape(-1)))
        if name == "dtype":
            return DTypeOf(o)
        if name in ("copy", "flatten", "ravel", "reshape", "astype", "tolist", "dot", "sum", "all", "any", "min", "max", "transpose",
                    "conj", "conjugate", "round", "item", "fill", "sort", "squeeze", "prod", "toarray", "mean", "argmin", "argmax", "nonzero", "cumsum"):
            def m(r, a, k):
                if name == "copy":
                    return o.copy()
                if name == "flatten":
                    return o.flatten()
                if name == "ravel":
                    return o.ravel()
                if name == "squeeze":
                    return o.squeeze()
                if name == "reshape":
                    try:
                        return o.reshape(*[pyidx(x) for x in a])
                    except ValueError as e:
                        raise PyRaise(e)
                if name == "astype":
                    return mapa(lambda x: cast1(x, a[0]), o)
                if name == "tolist":
                    return o.tolist()
                if name == "dot":
                    return np_dot(rt, o, a[0])
                if name == "transpose":
                    return o.transpose(*a)
                if name in ("conj", "conjugate"):
                    return mapa(conj1, o)
                if name == "item":
                    return o.item(*a)
                if name == "round":
                    return around(rt, o, *(a or [0]))
                if name == "fill":
                    rt.ver.note_write(base_of(o), None)
                    o[...] = a[0]
                    return None
                if name == "sort":
                    raise Unsupported("ndarray.sort")
                return getattr_np(rt, name)(rt, [o] + list(a), k)
            return Native("ndarray." + name, m)
        return NotImplemented
    if isinstance(o, DTypeOf):
        if name == "kind":
            raise Unsupported("dtype.kind")
    return NotImplemented


class DTypeOf:
    def __init__(self, a):
        self.a = a


def set_attribute(rt, o, name, v):
    if isinstance(o, np.ndarray) and name == "shape":
        raise Unsupported("setting shape")
    return False


def getattr_np(rt, name):
    return lambda r, a, k: namespace(rt, "numpy").attrs[name].fn(r, a, k)


def np_dot(rt, a, b):
    r = rt.seqs.binop_model(rt, "dot", a, b)
    if r is not NotImplemented:
        return r
    return matmul(rt, a, b, dot=True)


def det(rt, M):
    n = M.shape[0]
    if n == 0:
        return Fraction(1)
    if n == 1:
        return M[0, 0]
    acc = 0
    for j in range(n):
        minor = np.delete(np.delete(M, 0, 0), j, 1)
        t = rt.binop("*", M[0, j], det(rt, minor))
        acc = rt.binop("+" if j % 2 == 0 else "-", acc, t)
    return acc


def solve(rt, A, B):
    """x with A x = B; LinAlgError if A is singular (Cramer's rule, exact arithmetic)."""
    n = A.shape[0]
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise PyRaise(ValueError("Last 2 dimensions of the array must be square"))
    if n > 3:
        raise Unsupported("solve of a large system")
    d = det(rt, A)
    if rt.truth(rt.eq(d, 0)):
        raise PyRaise(ArithmeticError("Singular matrix"))
    B2 = B if B.ndim == 2 else B[:, None]
    if B2.shape[0] != n:
        raise PyRaise(ValueError("shape mismatch"))
    out = np.empty((n, B2.shape[1]), dtype=object)
    for j in range(B2.shape[1]):
        for i in range(n):
            C = A.copy()
            C[:, i] = B2[:, j]
            out[i, j] = rt.binop("/", det(rt, C), d)
    return out if B.ndim == 2 else out[:, 0]


_NS = {}


def namespace(rt, name):
    from .lib import Ns
    from .interp import Native
    global _RT
    _RT = rt
    if name in _NS and _NS[name][0] is rt:
        return _NS[name][1]
    ns = make_ns(rt, name)
    _NS[name] = (rt, ns)
    return ns


def make_ns(rt, name):
    from .lib import Ns, ModelClass
    from .interp import Native
    seqs = rt.seqs
    d = {}

    def add(n, f=None):
        def deco(g):
            d[n] = Native("np." + n, lambda r, a, k: g(*a, **k))
            return g
        return deco if f is None else deco(f)

    def model(fname, *a, **k):
        """Let the symbolic-shape model try first."""
        return seqs.np_call(rt, fname, a, k)

    def wrapm(n):
        def deco(g):
            def h(*a, **k):
                r = model(n, *a, **k)
                if r is not NotImplemented:
                    return r
                return g(*a, **k)
            d[n] = Native("np." + n, lambda r, a, k: h(*a, **k))
            return h
        return deco

    def arr(x):
        if isinstance(x, np.ndarray):
            return x
        if is_num(x):
            return asobj(scal(x))
        return build(rt, x)

    def un0(x):
        return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x

    if name == "numpy":
        for n, t in DTYPES.items():
            d[n] = t
        d.update({"ndarray": np.ndarray, "integer": np.integer, "floating": np.floating, "number": np.number,
                  "complexfloating": np.complexfloating, "generic": np.generic, "bool_": np.bool_, "newaxis": None, "pi": PI, "inf": INF, "nan": float("nan")})

        @wrapm("array")
        def array(x, dtype=None, copy=True, ndmin=0, order=None):
            r = build(rt, x) if not is_num(x) else asobj(scal(x))
            if dtype is not None:
                r = mapa(lambda y: cast1(y, dtype), r) if r.ndim else asobj(cast1(r[()], dtype))
            if not copy and isinstance(x, np.ndarray) and dtype is None:
                return x
            return r

        @wrapm("asarray")
        def asarray(x, dtype=None):
            if isinstance(x, np.ndarray) and dtype is None:
                return x
            return array(x, dtype=dtype)

        @wrapm("copy")
        def copy(x):
            return arr(x).copy()

        def filler(v):
            def g(shape, dtype=None, order=None):
                shape = pyidx(shape)
                if isinstance(shape, (list,)):
                    shape = tuple(shape)
                out = np.empty(shape, dtype=object)
                vv = cast1(v, dtype) if dtype is not None else Fraction(v)
                out[...] = vv
                return out
            return g
        wrapm("zeros")(filler(0))
        wrapm("ones")(filler(1))
        wrapm("empty")(filler(0))

        @wrapm("zeros_like")
        def zeros_like(x, dtype=None):
            out = np.empty(arr(x).shape, dtype=object)
            out[...] = Fraction(0)
            return out
        wrapm("empty_like")(zeros_like)

        @wrapm("full")
        def full(shape, v, dtype=None):
            out = np.empty(shape, dtype=object)
            out[...] = v
            return out

        @wrapm("identity")
        def identity(n, dtype=None):
            n = pyidx(n)
            if not isinstance(n, int):
                raise Unsupported("identity of symbolic size")
            out = np.empty((n, n), dtype=object)
            out[...] = Fraction(0)
            for i in range(n):
                out[i, i] = Fraction(1)
            return out
        d["eye"] = d["identity"]

        @wrapm("arange")
        def arange(*a):
            a = [pyidx(x) for x in a]
            if all(isinstance(x, int) for x in a):
                return build(rt, list(range(*a)))
            raise Unsupported("arange")

        @wrapm("linspace")
        def linspace(a, b, num=50, endpoint=True):
            n = pyidx(num)
            if not isinstance(n, int):
                raise Unsupported("linspace of symbolic length")
            den = n - 1 if endpoint else n
            out = np.empty((n,), dtype=object)
            for i in range(n):
                out[i] = rt.binop("+", a, rt.binop("*", Fraction(i, den) if den else Fraction(0), rt.binop("-", b, a)))
            return out

        for n, f in (("sqrt", sqrt1), ("sin", lambda x: trig("sin", x)), ("cos", lambda x: trig("cos", x)), ("abs", lambda x: abs_(rt, x)),
                     ("absolute", lambda x: abs_(rt, x)), ("fabs", lambda x: abs_(rt, x)), ("conj", conj1), ("conjugate", conj1),
                     ("real", lambda x: cparts(x)[0]), ("imag", lambda x: cparts(x)[1]),
                     ("isinf", lambda x: isinstance(x, float) and abs(x) == INF), ("isnan", lambda x: False), ("isfinite", lambda x: not isinstance(x, float)),
                     ("square", lambda x: rt.binop("*", x, x)), ("negative", lambda x: negate(rt, x)),
                     ("logical_not", lambda x: S(z3.Not(rt.as_bool_term(x)))),
                     ("rint", lambda x: rint(rt, x)),
                     ("floor", lambda x: S(z3.ToReal(z3.ToInt(zr(x)))) if isinstance(x, S) else Fraction(_math.floor(x))),
                     ("ceil", lambda x: S(z3.ToReal(-z3.ToInt(-zr(x)))) if isinstance(x, S) else Fraction(_math.ceil(x))),
                     ("deg2rad", lambda x: rt.binop("/", rt.binop("*", x, PI), 180)), ("radians", lambda x: rt.binop("/", rt.binop("*", x, PI), 180)),
                     ("rad2deg", lambda x: rt.binop("/", rt.binop("*", x, 180), PI)), ("degrees", lambda x: rt.binop("/", rt.binop("*", x, 180), PI)),
                     ("sign", lambda x: ite(rt.rich(">", x, 0), Fraction(1), ite(rt.rich("<", x, 0), Fraction(-1), Fraction(0))))):
            def mk(n=n, f=f):
                def g(x):
                    a = arr(x)
                    return mapa(f, a) if a.ndim else f(a[()])
                wrapm(n)(g)
            mk()

        @wrapm("around")
        def around_(x, decimals=0):
            a = arr(x)
            return mapa(lambda y: around(rt, y, decimals), a) if a.ndim else around(rt, a[()], decimals)
        d["round"] = d["round_"] = d["around"]
        wrapm("arctan2")(lambda y, x: arctan2(rt, y, x))
        wrapm("hypot")(lambda x, y: map2(lambda a, b: sqrt1(rt.binop("+", rt.binop("*", a, a), rt.binop("*", b, b))), x, y))

        for n, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("bitwise_xor", "^"), ("bitwise_and", "&"),
                      ("bitwise_or", "|"), ("left_shift", "<<"), ("right_shift", ">>")):
            wrapm(n)(lambda a, b, op=op: map2(lambda x, y: rt.binop(op, x, y), a if isinstance(a, np.ndarray) or is_num(a) else arr(a), b if isinstance(b, np.ndarray) or is_num(b) else arr(b)))
        for n, op in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")):
            wrapm(n)(lambda a, b, op=op: map2(lambda x, y: rt.rich(op, x, y), arr(a), arr(b)))
        wrapm("logical_and")(lambda a, b: map2(lambda x, y: S(z3.And(rt.as_bool_term(x), rt.as_bool_term(y))), arr(a), arr(b)))
        wrapm("logical_or")(lambda a, b: map2(lambda x, y: S(z3.Or(rt.as_bool_term(x), rt.as_bool_term(y))), arr(a), arr(b)))

        def mm2(name):
            return lambda a, b: map2(lambda x, y: minmax_l(rt, [x, y], name), arr(a), arr(b))
        wrapm("minimum")(mm2("min"))
        wrapm("maximum")(mm2("max"))
        wrapm("clip")(lambda a, lo, hi: map2(lambda x, y: minmax_l(rt, [x, y], "min"), map2(lambda x, y: minmax_l(rt, [x, y], "max"), arr(a), lo), hi))

        @wrapm("where")
        def where(c, *xy):
            if not xy:
                return d["nonzero"].fn(rt, [c], {})
            a, b = xy
            return map2(lambda p, q: ite(rt.as_bool_term(p), q[0], q[1]), arr(c), map2(lambda u, v: Pair(u, v), arr(a), arr(b)))

        for n, f in (("sum", sum_l), ("all", all_l), ("any", any_l)):
            def mkr(n=n, f=f):
                wrapm(n)(lambda a, axis=None, keepdims=False: red(rt, arr(a), axis, lambda xs: f(rt, xs), keepdims))
            mkr()

        @wrapm("prod")
        def prod(a, axis=None):
            def f(xs):
                acc = 1
                for x in xs:
                    acc = rt.binop("*", acc, x)
                return acc
            return red(rt, arr(a), axis, f)

        for n in ("min", "max"):
            def mkm(n=n):
                wrapm(n)(lambda a, axis=None, initial=None, keepdims=False: red(rt, arr(a), axis, lambda xs: minmax_l(rt, xs, n, initial), keepdims))
                d["a" + n] = d[n]
            mkm()

        @wrapm("mean")
        def mean(a, axis=None):
            return red(rt, arr(a), axis, lambda xs: rt.binop("/", sum_l(rt, xs), len(xs)))

        @wrapm("cumsum")
        def cumsum(a, axis=None):
            xs = list(arr(a).reshape(-1))
            out, acc = [], 0
            for x in xs:
                acc = rt.binop("+", acc, x)
                out.append(acc)
            return build(rt, out)

        @wrapm("diff")
        def diff(a, axis=-1):
            a = np.moveaxis(arr(a), axis, 0)
            return np.moveaxis(binop(rt, "-", a[1:], a[:-1]), 0, axis)

        @wrapm("dot")
        def dot(a, b):
            return np_dot(rt, a if isinstance(a, np.ndarray) or is_num(a) else arr(a), b if isinstance(b, np.ndarray) or is_num(b) else arr(b))

        @wrapm("matmul")
        def matmul_(a, b):
            return matmul(rt, a, b)

        @wrapm("vdot")
        def vdot(a, b):
            a, b = arr(a).reshape(-1), arr(b).reshape(-1)
            if a.shape != b.shape:
                raise PyRaise(ValueError("cannot reshape"))
            return dot1(rt, [conj1(x) for x in a], b)

        @wrapm("inner")
        def inner(a, b):
            return dot1(rt, arr(a).reshape(-1), arr(b).reshape(-1))

        @wrapm("outer")
        def outer(a, b):
            a, b = arr(a).reshape(-1), arr(b).reshape(-1)
            return map2(lambda x, y: rt.binop("*", x, y), a[:, None], b[None, :])

        @wrapm("cross")
        def cross(a, b):
            a, b = arr(a), arr(b)
            if a.shape == (3,) and b.shape == (3,):
                m = lambda i, j: rt.binop("-", rt.binop("*", a[i], b[j]), rt.binop("*", a[j], b[i]))
                return build(rt, [m(1, 2), m(2, 0), m(0, 1)])
            if a.shape == (2,) and b.shape == (2,):
                return rt.binop("-", rt.binop("*", a[0], b[1]), rt.binop("*", a[1], b[0]))
            raise Unsupported("cross")

        @wrapm("concatenate")
        def concatenate(xs, axis=0):
            xs = [arr(x) for x in rt.iterate(xs)]
            try:
                return np.concatenate(xs, axis=axis)
            except ValueError as e:
                raise PyRaise(e)

        @wrapm("stack")
        def stack(xs, axis=0):
            return np.stack([arr(x) for x in rt.iterate(xs)], axis=axis)
        wrapm("vstack")(lambda xs: np.vstack([arr(x) for x in rt.iterate(xs)]))
        wrapm("hstack")(lambda xs: np.hstack([arr(x) for x in rt.iterate(xs)]))
        wrapm("append")(lambda a, b, axis=None: np.append(arr(a), arr(b), axis=axis))
        wrapm("transpose")(lambda a, axes=None: arr(a).transpose(axes))
        wrapm("tile")(lambda a, r: np.tile(arr(a), r))
        wrapm("repeat")(lambda a, r, axis=None: np.repeat(arr(a), r, axis=axis))
        wrapm("flip")(lambda a, axis=None: np.flip(arr(a), axis))
        wrapm("roll")(lambda a, s, axis=None: np.roll(arr(a), pyidx(s), axis))
        wrapm("ravel")(lambda a: arr(a).ravel())
        wrapm("squeeze")(lambda a: arr(a).squeeze())
        wrapm("expand_dims")(lambda a, axis: np.expand_dims(arr(a), axis))
        wrapm("atleast_2d")(lambda a: np.atleast_2d(arr(a)))
        wrapm("trace")(lambda a: sum_l(rt, [a[i, i] for i in range(a.shape[0])]))
        wrapm("shape")(lambda a: arr(a).shape)
        wrapm("ndim")(lambda a: arr(a).ndim)

        @wrapm("reshape")
        def reshape(a, newshape=None, shape=None):
            try:
                return arr(a).reshape(pyidx(newshape if newshape is not None else shape))
            except ValueError as e:
                raise PyRaise(e)

        @wrapm("diag")
        def diag(a, k=0):
            a = arr(a)
            if a.ndim == 2:
                return np.diagonal(a, k).copy()
            n = a.shape[0] + abs(k)
            out = np.empty((n, n), dtype=object)
            out[...] = Fraction(0)
            for i in range(a.shape[0]):
                out[i - min(k, 0), i + max(k, 0)] = a[i]
            return out

        @wrapm("nonzero")
        def nonzero(a):
            a = arr(a)
            if a.ndim != 1:
                raise Unsupported("nonzero of a matrix")
            return (build(rt, [i for i in range(a.shape[0]) if rt.truth(a[i] if not is_num(a[i]) or isinstance(a[i], bool) or (isinstance(a[i], S) and sort_of(a[i].e) == "b") else rt.rich("!=", a[i], 0))]),)

        @wrapm("allclose")
        def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
            e = map2(lambda x, y: rt.rich("<=", abs_(rt, rt.binop("-", x, y)), rt.binop("+", atol, rt.binop("*", rtol, abs_(rt, y)))), arr(a), arr(b))
            return all_l(rt, list(arr(e).reshape(-1)))

        @wrapm("isclose")
        def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8)):
            return map2(lambda x, y: rt.rich("<=", abs_(rt, rt.binop("-", x, y)), rt.binop("+", atol, rt.binop("*", rtol, abs_(rt, y)))), arr(a), arr(b))

        @wrapm("array_equal")
        def array_equal(a, b):
            a, b = arr(a), arr(b)
            if a.shape != b.shape:
                return False
            return all_l(rt, [rt.rich("==", x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])

        @wrapm("broadcast_to")
        def broadcast_to(a, shape):
            return np.broadcast_to(arr(a), shape)

        for n in ("searchsorted", "unique", "sort", "argsort", "argmin", "argmax", "fromiter", "lexsort", "isin", "in1d", "einsum", "kron", "meshgrid", "array2string", "average", "tensordot", "ndindex", "count_nonzero", "split", "bincount", "vectorize", "frompyfunc", "mod", "floor_divide", "logical_xor", "bitwise_count", "tan", "arccos", "arcsin", "arctan", "exp", "log", "cbrt", "angle", "triu", "tril", "shares_memory", "may_share_memory", "packbits", "unpackbits", "nditer", "asfortranarray", "ascontiguousarray", "column_stack", "delete", "insert", "full_like", "ones_like", "bitwise_not", "invert", "flatnonzero", "argwhere", "take", "swapaxes", "moveaxis", "set_printoptions", "random"):
            if n not in d:
                def mku(n=n):
                    def g(*a, **k):
                        raise Unsupported("numpy.%s" % n)
                    wrapm(n)(g)
                mku()

        @wrapm("count_nonzero")
        def count_nonzero(a):
            acc = 0
            for x in arr(a).reshape(-1):
                acc = rt.binop("+", acc, ite(rt.as_bool_term(x), 1, 0))
            return acc

        @wrapm("ones_like")
        def ones_like(x, dtype=None):
            out = np.empty(arr(x).shape, dtype=object)
            out[...] = Fraction(1)
            return out

        @wrapm("column_stack")
        def column_stack(xs):
            return np.column_stack([arr(x) for x in rt.iterate(xs)])

        @wrapm("kron")
        def kron(a, b):
            a, b = arr(a), arr(b)
            out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
            for i in np.ndindex(*a.shape):
                for j in np.ndindex(*b.shape):
                    out[i[0] * b.shape[0] + j[0], i[1] * b.shape[1] + j[1]] = rt.binop("*", a[i], b[j])
            return out
        d["linalg"] = namespace(rt, "numpy.linalg")
        d["random"] = Ns("random", {}, noop=True)
        ns = Ns("numpy", d)
        return ns
    if name == "numpy.linalg":
        @wrapm("norm")
        def norm_(a, ord=None, axis=None):
            if ord not in (None, 2):
                raise Unsupported("norm ord")
            a = arr(a)
            if a.ndim == 2 and axis is None and ord == 2:
                raise Unsupported("spectral norm")
            return norm(rt, a, axis)
        wrapm("det")(lambda a: det(rt, arr(a)))
        wrapm("solve")(lambda a, b: solve(rt, arr(a), arr(b)))

        @wrapm("inv")
        def inv(a):
            a = arr(a)
            return solve(rt, a, d2_identity(rt, a.shape[0]))

        @wrapm("multi_dot")
        def multi_dot(xs):
            xs = [arr(x) for x in rt.iterate(xs)]
            acc = xs[0]
            for x in xs[1:]:
                acc = matmul(rt, acc, x)
            return acc

        @wrapm("matrix_power")
        def matrix_power(a, n):
            r = d2_identity(rt, a.shape[0])
            for _ in range(n):
                r = matmul(rt, r, a)
            return r
        d["LinAlgError"] = ArithmeticError
        return Ns("numpy.linalg", d)
    r = seqs.scipy_namespace(rt, name)
    if r is not None:
        return r
    raise Unsupported("module %s is not modelled" % name)


class Pair:
    def __init__(self, a, b):
        self.p = (a, b)

    def __getitem__(self, i):
        return self.p[i]


def d2_identity(rt, n):
    out = np.empty((n, n), dtype=object)
    out[...] = Fraction(0)
    for i in range(n):
        out[i, i] = Fraction(1)
    return out


compare = compare_
