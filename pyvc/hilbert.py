"""Vectors of an abstract inner-product space, linear operators on it, and their inner products.

A vector is a finite linear combination of atoms (integer codes); an operator a linear
combination of operator atoms.  Inner products of atoms are uninterpreted, with conjugate
symmetry and positivity; everything else (linearity of operators, sesquilinearity of vdot,
the norm as the root of the inner product) is computed.
"""
import z3

from .sym import S, Cx, Ctx, Unsupported, PyRaise, arith, compare, fresh, is_num, zi, zr, cparts, tobool
from .interp import Native

I, R = z3.IntSort(), z3.RealSort()
MAP = z3.Function("image", I, I, I)                     # operator code, vector code
RES = z3.Function("resolvent_image", R, R, I, I, I)     # (w + H)^-1 v : w (re, im), code of H, code of v
GR = z3.Function("inner_re", I, I, R)
GI = z3.Function("inner_im", I, I, R)
UNIT = z3.Int("first_basis_vector")
IDENT = "identity"


def lc_add(xs, ys, s=1):
    out = list(xs)
    for t, a in ys:
        a = arith("*", s, a)
        for i, (u, b) in enumerate(out):
            if same(u, t):
                out[i] = (u, arith("+", b, a))
                break
        else:
            out.append((t, a))
    return out


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a is b
    return a.eq(b)


def conj(x):
    if isinstance(x, (Cx, complex)):
        re, im = cparts(x)
        return Cx(re, arith("-", 0, im))
    return x


def inner(a, b):
    """<a, b> of two atoms, with the facts every inner product has."""
    c = Ctx.cur
    done = c.data.setdefault("gram", set())
    key = (a.get_id(), b.get_id())
    if key not in done:
        done.add(key)
        c.data.setdefault("gram_keep", []).append((a, b))
        if a.eq(b):
            c.assume(z3.And(GI(a, a) == 0, GR(a, a) >= 0))
        else:
            c.assume(z3.And(GR(a, b) == GR(b, a), GI(a, b) == -GI(b, a)))
    return Cx(S(GR(a, b)), 0 if a.eq(b) else S(GI(a, b)))


def adjoint(op, a, b, sign=1):
    """Assume <a, op b> = sign <op a, b> (op is self-adjoint for sign 1, anti-self-adjoint for -1)."""
    c = Ctx.cur
    x, y = inner(a, MAP(op, b)), inner(MAP(op, a), b)
    c.assume(z3.And(zr(x.re) == sign * zr(y.re), zr(x.im) == sign * zr(y.im)))


def vdot(u, v):
    r = 0
    for a, s in u.terms:
        for b, t in v.terms:
            r = arith("+", r, arith("*", arith("*", conj(s), t), inner(a, b)))
    return r if isinstance(r, Cx) else Cx(r, 0)


def norm2(v):
    """<v, v>, a real number: computed from the symmetric form."""
    r = 0
    for i, (a, s) in enumerate(v.terms):
        p, q = cparts(s)
        r = arith("+", r, arith("*", arith("+", arith("*", p, p), arith("*", q, q)), inner(a, a).re))
        for b, t in v.terms[i + 1:]:
            x = arith("*", arith("*", conj(s), t), inner(a, b))
            r = arith("+", r, arith("*", 2, cparts(x)[0]))
    return r


class Vec:
    model = True
    mutable = True
    pytype = object

    def __init__(self, terms, bra=False, dim=None):
        self.terms = list(terms)
        self.bra = bra
        self.dim = dim

    def copy(self):
        return Vec(self.terms, self.bra, self.dim)

    def m_kind(self):
        return "vec"

    def m_truth(self, rt):
        raise Unsupported("truth of a vector")

    def m_havoc(self, rt, name):
        h = rt.ver.task.uses.get("havoc-vector")
        if h is None:
            return Vec([(fresh("i", name).e, 1)], False, self.dim)
        return h(rt, self, name)

    def m_snapshot(self, rt):
        return list(self.terms)

    def m_heap_havoc(self, rt, snap):
        self.terms = [(fresh("i", "vec").e, 1)]

    def plain(self):
        if self.bra:
            raise Unsupported("a conjugated vector")

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-") and isinstance(o, Vec):
            if self.bra != o.bra:
                raise Unsupported("sum of a vector and a conjugated one")
            a, b = (self, o) if left else (o, self)
            return Vec(lc_add(a.terms, b.terms, 1 if op == "+" else -1), self.bra, self.dim)
        if op == "*" and is_num(o):
            return self.scaled(o)
        if op == "/" and is_num(o) and left:
            inv = rt.binop("/", 1, o)
            if isinstance(o, S) and not self.bra and all(isinstance(a, S) and a.e.eq(o.e) for t, a in self.terms):
                return Vec([(t, 1) for t, a in self.terms], False, self.dim)     # (s v) / s with s != 0
            return self.scaled(inv)
        if op in ("@", "dot") and isinstance(o, Vec):
            a, b = (self, o) if left else (o, self)
            return self.pair(a, b)
        if op in ("@", "dot") and isinstance(o, Op) and not left:
            return o.apply(self)
        return NotImplemented

    def pair(self, a, b):
        if a.bra and not b.bra:
            return vdot(a.unbar(), b)
        if b.bra and not a.bra:
            return vdot(b.unbar(), a)
        raise Unsupported("bilinear product of vectors")

    def unbar(self):
        return Vec(self.terms, False, self.dim)

    def scaled(self, s):
        if self.bra:
            s = conj(s)
        return Vec([(t, arith("*", a, s)) for t, a in self.terms], self.bra, self.dim)

    def m_inplace(self, rt, op, b):
        r = self.m_binop(rt, op, b, True)
        if r is NotImplemented or not isinstance(r, Vec):
            raise Unsupported("in-place %s of a vector" % op)
        rt.ver.note_write(self, None)
        self.terms = r.terms
        return self

    def m_attr(self, rt, name):
        if name in ("conj", "conjugate"):
            return Native(name, lambda r, a, k: Vec(self.terms, not self.bra, self.dim))
        if name in ("copy", "astype"):
            return Native(name, lambda r, a, k: self.copy())
        if name in ("T",):
            return self.alias()
        if name in ("ravel", "reshape", "flatten"):
            if name == "flatten":
                return Native(name, lambda r, a, k: self.copy())
            return Native(name, lambda r, a, k: self)
        if name == "dot":
            return Native("dot", lambda r, a, k: self.pair(self, a[0]) if isinstance(a[0], Vec) else arith_fail())
        if name == "shape" and self.dim is not None:
            return (self.dim,)
        if name in ("size",) and self.dim is not None:
            return self.dim
        if name == "dtype":
            return rt.np.namespace(rt, "numpy").attrs["complex128"]
        raise Unsupported("attribute %s of a vector" % name)

    def alias(self):
        return self

    def m_len(self, rt):
        if self.dim is None:
            raise Unsupported("length of a vector")
        return self.dim

    # the component along the first basis vector
    def m_get(self, rt, i):
        if i != 0 or self.bra:
            raise Unsupported("component of a vector")
        return vdot(Vec([(UNIT, 1)]), self)

    def m_set(self, rt, i, v):
        if i != 0 or self.bra:
            raise Unsupported("component of a vector")
        rt.ver.note_write(self, None)
        self.terms = lc_add(self.terms, [(UNIT, arith("-", v, unit_part(self)))])
        return True

    def m_np(self, rt, name, args, kw):
        return np_vec(rt, name, args, kw)


def unit_part(v):
    for t, a in v.terms:
        if not same(t, UNIT):
            raise Unsupported("component of a general vector is written")
    return v.terms[0][1] if v.terms else 0


def arith_fail():
    raise Unsupported("product with a vector")


def np_vec(rt, name, args, kw):
    a = args[0]
    if name == "vdot":
        u, v = args
        if not isinstance(u, Vec) or not isinstance(v, Vec):
            raise Unsupported("inner product with something else")
        u.plain() if not u.bra else None
        if u.bra or v.bra:
            raise Unsupported("vdot of a conjugated vector")
        return vdot(u, v)
    if name in ("dot", "inner", "matmul"):
        return rt.binop("@", args[0], args[1])
    if name == "norm":
        n2 = norm2(a)
        if isinstance(n2, S):
            Ctx.cur.assume(n2.e >= 0)
        return rt.np.namespace(rt, "numpy").attrs["sqrt"].fn(rt, [norm2(a)], {})
    if name == "zeros_like":
        return Vec([], False, a.dim)
    if name == "empty_like":
        return Vec([(fresh("i", "garbage").e, 1)], False, a.dim)
    if name in ("conj", "conjugate"):
        return Vec(a.terms, not a.bra, a.dim)
    if name in ("array", "copy"):
        return a.copy()
    if name in ("asarray", "ravel"):
        return a
    if name in ("multiply", "divide", "add", "subtract", "true_divide"):
        return rt.binop({"multiply": "*", "divide": "/", "true_divide": "/", "add": "+", "subtract": "-"}[name], args[0], args[1])
    if name == "solve":
        return solve(rt, args[0], args[1])
    return NotImplemented


class Op:
    """Linear combination of operator atoms (IDENT is the identity)."""
    model = True
    mutable = True
    pytype = object

    def __init__(self, terms, dim=None):
        self.terms = [(t, a) for t, a in terms]
        self.dim = dim

    def m_kind(self):
        return "op"

    def m_snapshot(self, rt):
        return list(self.terms)

    def m_heap_havoc(self, rt, snap):
        self.terms = [(fresh("i", "op").e, 1)]

    def m_havoc(self, rt, name):
        # the same atoms with unknown factors: the kind of value the program builds
        return Op([(t, Cx(fresh("r", name), fresh("r", name))) for t, _ in self.terms], self.dim)

    def apply(self, v):
        if v.bra:
            raise Unsupported("operator on a conjugated vector")
        out = []
        for t, s in self.terms:
            out = lc_add(out, [(a if t is IDENT else MAP(t, a), b) for a, b in v.terms], s)
        return Vec(out, False, v.dim)

    def scaled(self, s):
        return Op([(t, arith("*", a, s)) for t, a in self.terms], self.dim)

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-") and isinstance(o, Op):
            a, b = (self, o) if left else (o, self)
            return Op(lc_add(a.terms, b.terms, 1 if op == "+" else -1), self.dim)
        if op == "*" and is_num(o):
            return self.scaled(o)
        if op == "/" and is_num(o) and left:
            return self.scaled(rt.binop("/", 1, o))
        if op in ("@", "dot") and isinstance(o, Vec) and left:
            return self.apply(o)
        return NotImplemented

    def m_inplace(self, rt, op, b):
        r = self.m_binop(rt, op, b, True)
        if r is NotImplemented or not isinstance(r, Op):
            raise Unsupported("in-place %s of an operator" % op)
        rt.ver.note_write(self, None)
        self.terms = r.terms
        return self

    def m_unary(self, rt, op):
        if op == "-":
            return self.scaled(-1)
        return NotImplemented

    def m_attr(self, rt, name):
        if name == "dot":
            return Native("dot", lambda r, a, k: r.binop("@", self, a[0]))
        if name == "shape":
            if self.dim is None:
                raise Unsupported("shape of an operator")
            return (self.dim, self.dim)
        if name in ("copy", "astype", "toarray", "tocsr"):
            return Native(name, lambda r, a, k: Op(self.terms, self.dim))
        raise Unsupported("attribute %s of an operator" % name)

    def m_len(self, rt):
        if self.dim is None:
            raise Unsupported("length of an operator")
        return self.dim

    def m_np(self, rt, name, args, kw):
        if name == "solve":
            return solve(rt, args[0], args[1])
        if name in ("dot", "matmul"):
            return rt.binop("@", args[0], args[1])
        if name in ("array", "copy"):
            return Op(self.terms, self.dim)
        if name == "asarray":
            return self
        if name == "negative":
            return self.scaled(-1)
        if name in ("multiply", "divide", "add", "subtract"):
            return rt.binop({"multiply": "*", "divide": "/", "add": "+", "subtract": "-"}[name], args[0], args[1])
        if name == "inv":
            return Inverse(self)
        if name in ("identity", "eye"):
            return NotImplemented
        return NotImplemented


class Inverse:
    model = True
    pytype = object

    def __init__(self, op):
        self.op = op

    def m_binop(self, rt, op, o, left):
        if op in ("@", "dot") and isinstance(o, Vec) and left:
            return solve(rt, self.op, o)
        return NotImplemented

    def m_attr(self, rt, name):
        if name == "dot":
            return Native("dot", lambda r, a, k: r.binop("@", self, a[0]))
        raise Unsupported("attribute %s of an inverse" % name)

    def m_np(self, rt, name, args, kw):
        if name in ("dot", "matmul"):
            return rt.binop("@", args[0], args[1])
        return NotImplemented


def solve(rt, m, v):
    """(w + H)^-1 applied to v, for m = h (w + H) with a known h."""
    if not isinstance(m, Op) or not isinstance(v, Vec) or v.bra:
        raise Unsupported("linear system of another kind")
    w, hc = 0, None
    for t, s in m.terms:
        if t is IDENT:
            w = s
        elif hc is None:
            hc, h = t, s
        else:
            raise Unsupported("linear system with two operators")
    if hc is None:
        return v.scaled(rt.binop("/", 1, w))
    hr, hi = cparts(h)
    if any(isinstance(x, S) for x in (hr, hi)):
        raise Unsupported("an operator with an unknown factor in a linear system")
    inv = rt.binop("/", 1, hr) if hi == 0 else rt.binop("/", 1, h)
    p, q = cparts(arith("*", w, inv))
    return Vec([(RES(z3.simplify(zr(p), som=True), z3.simplify(zr(q), som=True), hc, a), arith("*", s, inv)) for a, s in v.terms], False, v.dim)


def identity(dim):
    return Op([(IDENT, 1)], dim)
