"""C19: Lanczos projection in an abstract inner-product space, for any Hermitian matrix, dimension and keys.

Ghost sequence K(0), K(1), ...: the vector held by the program at the head of iteration i.
Invariants at the head of iteration k (ket is the current vector, K+(i) = K(i) for i < k and K+(k) = ket):
  orthonormality of K+(0..k), and for every vector U and i < k the three-term relation
  <U, M K(i)> = <K+(i+1), M K(i)> <U, K+(i+1)> + <K(i), M K(i)> <U, K(i)> + <K(i-1), M K(i)> <U, K(i-1)>
with real coefficients, the off-diagonal one above the threshold.
"""
import os

from .base import *
from pyvc import poly
from pyvc.hilbert import Vec, Op, MAP, GR, GI, inner, vdot, norm2
from pyvc.maps import KObj
from pyvc.sarr import SArr, conc
from pyvc.seqs import SList, SSeq
from pyvc.sym import cparts

LZ = "HamiltonianPy.lanczos"
I, R = z3.IntSort(), z3.RealSort()
K = z3.Function("krylov", I, I)
VEC = z3.Function("vector_of_key", I, I)
KEY = z3.Function("key", I, I)
TRACE = os.environ.get("PYVC_TRACE")
ZERO = z3.Int("zero_vector")
M = z3.Int("M")
NEGLIGIBLE = z3.Function("negligible", I, z3.BoolSort())
MATRIX, OVERLAPS = z3.Function("projected_matrix", I, I), z3.Function("projected_vectors", I, I)


def null(a, cond, others):
    """a is the zero vector if cond."""
    c = Ctx.cur
    for b in others:
        x = inner(b, a)
        c.assume(Implies(cond, And(zr(x.re) == 0, zr(x.im) == 0)))


def herm(pairs):
    """<a, M b> = <M a, b>."""
    c = Ctx.cur
    seen = c.data.setdefault("herm", set())
    for a, b in pairs:
        key = (a.get_id(), b.get_id())
        if key in seen:
            continue
        seen.add(key)
        c.data.setdefault("keep", []).append((a, b))
        x, y = inner(a, MAP(M, b)), inner(MAP(M, a), b)
        c.assume(And(zr(x.re) == zr(y.re), zr(x.im) == zr(y.im)))
        inner(b, MAP(M, a))


def at(i):
    """K(i) as a vector."""
    return Vec([(K(i), 1)])


def times(s, z):
    return Cx(mul(s, z.re), mul(s, z.im))


def ceq(a, b):
    (p, q), (r, s) = cparts(a), cparts(b)
    return And(eqz(p, r), eqz(q, s))


def image(v):
    return Op([(M, 1)]).apply(v)


class Basis:
    """The formulas of the contract, for K+ at iteration k with current vector ket."""

    def __init__(self, k, ket):
        self.k, self.ket = k, ket

    def is_last(self, i):
        return self.k is not None and self.k.eq(i)

    def plus(self, i, f):
        """f(K+(i)): by cases if i may be k."""
        if self.ket is None:
            return f(at(i))
        i_, k_ = z3.simplify(i), z3.simplify(self.k)
        a, b = f(at(i)), f(self.ket)
        return And(Implies(i < self.k, a), Implies(i == self.k, b))

    def unit(self, i):
        return self.plus(i, lambda v: eqz(norm2(v), 1))

    def orth(self, i, j):
        """<K(i), K+(j)> = 0 for 0 <= i < j <= k."""
        return Implies(And(i >= 0, i < j, j <= self.k), self.plus(j, lambda v: ceq(vdot(at(i), v), 0)))

    def relation(self, i, u):
        U = Vec([(u, 1)])
        mk = image(at(i))

        def f(v):
            c = lambda w: vdot(w, mk).re
            lower = vdot(U, at(i - 1))
            return ceq(vdot(U, mk), add(times(c(v), vdot(U, v)), times(c(at(i)), vdot(U, at(i))), times(c(at(i - 1)), lower)))
        return Implies(And(i >= 0, i < self.k), self.plus(i + 1, f))

    def coupling(self, i, thr):
        mk = image(at(i))

        def f(v):
            z = vdot(v, mk)
            return And(eqz(z.im, 0), gt(z.re, thr))
        return Implies(And(i >= 0, i < self.k), self.plus(i + 1, f))


def three_terms(i, u):
    """<u, M K(i)> by the three-term relation (the next vector is K(i + 1))."""
    U, mk = Vec([(u, 1)]), image(at(i))
    co = lambda w: vdot(w, mk).re
    return ceq(vdot(U, mk), add(*[times(co(w), vdot(U, w)) for w in (at(i + 1), at(i), at(i - 1))]))


class NumList(SList):
    """A list of numbers."""
    mutable = True

    def __init__(self, n=0, fn=None):
        SList.__init__(self, n, fn or (lambda j: Cx(0, 0)))
        self.owned = False

    def m_kind(self):
        return "numlist"

    def m_snapshot(self, rt):
        return (self.n, self.fn)

    def m_heap_havoc(self, rt, snap):
        self.n, self.fn = unknown()

    def m_havoc(self, rt, name):
        return NumList(*unknown())

    def append(self, rt, v):
        if not is_num(v):
            raise Unsupported("a list of something else")
        rt.ver.note_write(self, None)
        n, old = self.n, self.fn
        self.fn = lambda j: ite(compare("==", j, n), v, old(j))
        self.n = conc(add(n, 1))

    def m_np(self, rt, name, args, kw):
        if name in ("array", "asarray") and len(args) == 1 and not kw:
            fn = self.fn
            return SArr([self.n], lambda j: fn(j[0]), "c")
        return NotImplemented


def unknown():
    c = Ctx.cur
    n = fresh("i", "len")
    c.assume(n.e >= 0)
    re, im = z3.Function(c.name("elem_re"), I, R), z3.Function(c.name("elem_im"), I, R)
    return n, (lambda j: Cx(S(re(zi(j))), S(im(zi(j)))))


class Vectors:
    """The given mapping of vectors, any number of keys."""
    model = True
    pytype = dict

    def __init__(self, n):
        self.n = n
        self.given = []

    def m_len(self, rt):
        return self.n

    def sym_iter(self, rt):
        return SSeq(self.n, lambda j: KObj(KEY(zi(j))), tuple)

    def m_get(self, rt, k):
        for t, v in self.given:
            if t.eq(k.t):
                return v
        v = Vec([(VEC(k.t), 1)])
        self.given.append((k.t, v))
        return v

    def m_set(self, rt, k, v):
        H(rt, Ctx.cur).fail("the given vectors are not replaced")
        return True

    def m_attr(self, rt, name):
        if name == "items":
            return Native(name, lambda r, a, k: SSeq(self.n, lambda j: (KObj(KEY(zi(j))), self.m_get(r, KObj(KEY(zi(j))))), tuple))
        if name == "keys":
            return Native(name, lambda r, a, k: self.sym_iter(r))
        raise Unsupported("mapping.%s" % name)

    def unchanged(self):
        return z3.BoolVal(all(len(v.terms) == 1 and v.terms[0][0].eq(VEC(t)) and v.terms[0][1] == 1 for t, v in self.given))


class Table:
    """A dict with one list (or array) per key, by the one at an arbitrary key."""
    model = True
    mutable = True
    pytype = dict

    def __init__(self):
        self.has, self.arr = z3.BoolVal(False), z3.BoolVal(False)
        self.n, self.fn = 0, None

    def m_kind(self):
        return "table"

    def m_snapshot(self, rt):
        return (self.has, self.arr, self.n, self.fn)

    def m_heap_havoc(self, rt, snap):
        self.has, self.arr = fresh("b", "has").e, fresh("b", "isarray").e
        self.n, self.fn = unknown()

    def ghost(self, rt, k):
        if not isinstance(k, KObj):
            raise Unsupported("a key of another kind")
        d = Ctx.cur.data
        if k.t.decl().eq(KEY):
            # the keys of a mapping are different
            Ctx.cur.assume((k.t == KEY(d["g0"].e)) == (k.t.arg(0) == d["g0"].e))
        return rt.truth(S(k.t == KEY(d["g0"].e)))

    def m_set(self, rt, k, v):
        rt.ver.note_write(self, None)
        if isinstance(v, NumList):
            if v.owned or any(f.preexisting(v) is not None for f in Ctx.cur.loops):
                raise Unsupported("one list under several keys")
            v.owned = True
        elif not isinstance(v, SArr):
            raise Unsupported("another kind of value in the table")
        if self.ghost(rt, k):
            self.has = z3.BoolVal(True)
            if isinstance(v, NumList):
                self.arr, self.n, self.fn = z3.BoolVal(False), v.n, v.fn
            else:
                rd = v.reader()
                self.arr, self.n, self.fn = z3.BoolVal(True), v.shape[0], (lambda j: rd((j,)))
        return True

    def m_get(self, rt, k):
        if self.ghost(rt, k):
            if not rt.truth(S(self.has)):
                raise PyRaise(KeyError("key"))
            return Handle(self)
        return Handle(None)

    def sym_iter(self, rt):
        d = Ctx.cur.data
        if not Ctx.cur.prove_now(self.has):
            raise Unsupported("iteration over an incomplete table")
        return SSeq(d["nk"], lambda j: KObj(KEY(zi(j))), tuple)

    def m_attr(self, rt, name):
        if name == "items":
            def items(r, a, k):
                s = self.sym_iter(r)
                return SSeq(s.n, lambda j: (s.fn(j), self.m_get(r, s.fn(j))), tuple)
            return Native(name, items)
        if name == "keys":
            return Native(name, lambda r, a, k: self.sym_iter(r))
        raise Unsupported("dict.%s" % name)


class Token:
    """A result of KrylovRepresentation, by what it is a result for."""
    model = True
    pytype = object

    def __init__(self, kind, code):
        self.kind, self.code = kind, code


class Tokens(Table):
    """A dict of such results, by the one at an arbitrary key."""
    pytype = dict

    def __init__(self):
        self.has, self.kind, self.code = z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0)

    def m_kind(self):
        return "tokens"

    def m_snapshot(self, rt):
        return (self.has, self.kind, self.code)

    def m_heap_havoc(self, rt, snap):
        self.has, self.kind, self.code = fresh("b", "has").e, fresh("i", "kind").e, fresh("i", "code").e

    def m_set(self, rt, k, v):
        rt.ver.note_write(self, None)
        if not isinstance(v, Token):
            raise Unsupported("another kind of value in the table")
        if self.ghost(rt, k):
            self.has, self.kind, self.code = z3.BoolVal(True), z3.IntVal(0 if v.kind == "matrix" else 1), v.code
        return True

    def m_get(self, rt, k):
        raise Unsupported("reading results back")


class Handle:
    """The list stored in a table (or the one of another key, about which nothing is known)."""
    model = True
    pytype = list

    def __init__(self, tab):
        self.tab = tab

    def m_attr(self, rt, name):
        if name == "append":
            def append(r, a, k):
                if self.tab is None:
                    return None
                t = self.tab
                if not is_num(a[0]):
                    raise Unsupported("a list of something else")
                r.ver.note_write(t, None)
                if not r.truth(S(Not(t.arr))):
                    raise PyRaise(AttributeError("append"))
                n, old, v = t.n, t.fn, a[0]
                t.fn = lambda j: ite(compare("==", j, n), v, old(j)) if old is not None else v
                t.n = conc(add(n, 1))
            return Native(name, append)
        raise Unsupported("list.%s" % name)

    def m_np(self, rt, name, args, kw):
        if name in ("array", "asarray") and len(args) == 1 and not kw:
            if self.tab is None:
                n, fn = unknown()
            else:
                n, fn = self.tab.n, self.tab.fn
            return SArr([n], lambda j: fn(j[0]), "c")
        return NotImplemented


def diag(rt, a, k):
    v = a[0]
    d = a[1] if len(a) > 1 else k.get("k", 0)
    if isinstance(v, NumList) or isinstance(v, SList):
        n, fn = v.n, v.fn
    elif isinstance(v, SArr) and v.ndim == 1:
        rd = v.reader()
        n, fn = v.shape[0], lambda j: rd((j,))
    else:
        return NotImplemented
    if not isinstance(d, int):
        raise Unsupported("diagonal number")
    m = conc(add(n, abs(d)))

    def entry(ij):
        i, j = ij
        p = j if d < 0 else i
        return ite(S(zi(j) - zi(i) == d), fn(p), Cx(0, 0))
    return SArr([m, m], entry, "c")


def derive(c, hyps, goal, label):
    """A consequence of facts already on the path, found from those alone (keeps the other queries small)."""
    hyps = [f for f in hyps if f is not None]
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*hyps)
    s.add(Not(goal))
    ok = s.check() == z3.unsat
    if not ok and poly.is_equation(goal):
        ok = poly.entails(hyps, goal)
    if TRACE:
        print("DERIVE", label, ok)
    if ok:
        c.assume(goal)
    return ok


def norm(rt, a, kw):
    """|r| for r = M x - A x - B y: r = |r| z with a unit vector z (any z if r is zero), and what follows for z."""
    c = Ctx.cur
    v, d = a[0], c.data
    if not isinstance(v, Vec) or len(a) > 1 or kw or v.bra or len(v.terms) < 2 or "x" not in d:
        return NotImplemented
    x, y, k = d["x"], d["y"], d["k"]
    mx, my = MAP(M, x), MAP(M, y)
    ip = lambda p, q: (zr(inner(p, q).re), zr(inner(p, q).im))
    zero = lambda p, q: And(ip(p, q)[0] == 0, ip(p, q)[1] == 0)
    r = Vec(v.terms)
    n2 = zr(norm2(r))
    c.assume(n2 >= 0)
    nu = c.ver.rt.np.namespace(rt, "numpy").attrs["sqrt"].fn(rt, [S(n2)], {})
    nz = zr(nu)
    z_ = fresh("i", "next").e
    d.setdefault("keep", []).append(z_)
    v.terms = [(z_, nu)]
    c.assume(Implies(nz > 0, ip(z_, z_)[0] == 1))
    def against(b):
        p, q = cparts(vdot(Vec([(b, 1)]), r))
        f = And(ip(b, z_)[0] * nz == zr(p), ip(b, z_)[1] * nz == zr(q))
        c.assume(f)
        return f
    i0, j0, u0 = d["i0"].e, d["j0"].e, d["u0"]
    ks = [K(i0), K(j0), K(i0 + 1), K(i0 - 1), K(j0 + 1), K(j0 - 1)]
    fx = {b.get_id(): against(b) for b in [x, y, mx, my, u0] + ks + [MAP(M, b) for b in ks]}
    at_ = lambda b: fx[b.get_id()]
    if {t.get_id() for t, s in r.terms} != {mx.get_id(), x.get_id(), y.get_id()}:
        return nu
    hy = d.get("hyps", [])
    hh = lambda p, q: And(ip(p, MAP(M, q))[0] == ip(MAP(M, p), q)[0], ip(p, MAP(M, q))[1] == ip(MAP(M, p), q)[1])
    conj_ = lambda p, q: And(ip(p, q)[0] == ip(q, p)[0], ip(p, q)[1] == -ip(q, p)[1])
    herm([(x, x), (x, y), (y, x)])
    have = lambda hyps, goal, label: goal if derive(c, hyps, goal, label) else None
    null(y, k == 0, [x, mx])
    null(my, k == 0, [x])
    nul = [Implies(k == 0, zero(b, y)) for b in (x, mx)] + [Implies(k == 0, zero(x, my)), conj_(x, y), conj_(mx, y), conj_(x, my), conj_(x, mx), k >= 0]
    c.assume(And(nul))
    # the two last vectors, real coefficients
    f1 = [have(hy + nul, f, "last vectors") for f in (zero(y, x), ip(x, x)[0] == 1, ip(x, my)[1] == 0)]
    sym = [conj_(x, mx), conj_(y, mx), conj_(my, x), conj_(x, y)]
    f2 = [have([hh(x, x), hh(y, x), hh(x, y)] + sym + f1, f, "real coefficients") for f in (ip(x, mx)[1] == 0, ip(y, mx)[1] == 0)]
    B = ip(y, mx)[0]
    unit = have(hy + nul + [conj_(y, mx)], Or(ip(y, y)[0] == 1, B == 0), "unit or absent")
    f3 = [have([unit], B * ip(y, y)[0] == B, "unit or absent")]
    if any(f is None for f in f1 + f2 + f3):
        return nu
    A, mm = ip(x, mx)[0], ip(mx, mx)[0]
    base = f1 + f2 + f3 + sym
    # |r|^2 and <M x, z>
    f4 = have(base, n2 == mm - A * A - B * B, "length of the residual")
    p, q = cparts(vdot(Vec([(mx, 1)]), r))
    f5 = [have(base, zr(p) == mm - A * A - B * B, "overlap with the image"), have(base, zr(q) == 0, "overlap with the image")]
    sq_ = And(nz >= 0, nz * nz == n2)
    have([f4, sq_, at_(mx)] + f5, Implies(nz > 0, And(ip(mx, z_)[0] == nz, ip(mx, z_)[1] == 0)), "coupling")
    # orthogonality to the earlier vectors
    for b in (x, y):
        p, q = cparts(vdot(Vec([(b, 1)]), r))
        g = have(base + nul + hy, Or(z3.BoolVal(b is y) if b is x else k == 0, And(zr(p) == 0, zr(q) == 0)), "orthogonal to the last two")
        have([at_(b), g], Implies(And(nz > 0, k >= 1) if b is y else nz > 0, zero(b, z_)), "orthogonal to the last two")
    for i in (i0, j0):
        b = K(i)
        near = [K(i + 1), K(i), K(i - 1)]
        herm([(b, x)])
        c.assume(And([conj_(x, e) for e in near]))
        null(K(i - 1), i == 0, [x])
        deep = And(i >= 0, i < k - 1)
        z0 = [have(hy + [conj_(x, e)] + ([Implies(i == 0, zero(x, e))] if e is near[2] else []), Implies(deep, zero(x, e)), "orthogonal to its neighbours") for e in near]
        rel = d["basis"].relation(i, x)
        if not any(f.eq(rel) for h_ in hy for f in poly.conjuncts(h_)):
            continue
        three = have([rel, K(k) == x, Implies(i + 1 < k, k > 0)], Implies(deep, three_terms(i, x)), "three terms")
        w = have([three] + z0, Implies(deep, zero(x, MAP(M, b))), "image of an earlier vector")
        g1 = have([w, hh(b, x), conj_(MAP(M, b), x), conj_(b, mx)], Implies(deep, zero(b, mx)), "image of an earlier vector")
        p, q = cparts(vdot(Vec([(b, 1)]), r))
        zb = have(hy + z0 + [conj_(b, x), conj_(x, b)], Implies(deep, And(zero(b, x), zero(b, y))), "orthogonal to both")
        g2 = have([g1, zb], Implies(deep, And(zr(p) == 0, zr(q) == 0)), "orthogonal residual")
        have([g2, at_(b)], Implies(And(deep, nz > 0), zero(b, z_)), "orthogonal to the earlier ones")
    return nu


def real(z):
    return S(zr(z.re if isinstance(z, Cx) else z))


def tasks():
    out = []

    def setup(h):
        c = h.c
        dim, nk = h.int("dim"), h.int("nk")
        i0, j0, g0 = h.int("i"), h.int("j"), h.int("g")
        u0, v0 = h.int("U").e, h.int("v0").e
        thr = h.real("threshold")
        h.requires(And(dim.e >= 1, nk.e >= 0, i0.e >= 0, j0.e >= 0, g0.e >= 0, g0.e < nk.e, thr.e >= 0))
        h.rt.modules[LZ].env["_VIEW_AS_ZERO"] = thr
        c.assume(K(-1) == ZERO)
        c.data.update(dim=dim, nk=nk, i0=i0, j0=j0, g0=g0, u0=u0, v0=v0, thr=thr)
        return dim, nk, i0, j0, g0, u0, v0, thr

    def krylov(loop):
        c = Ctx.cur
        d = c.data
        res = []
        n = loop.n
        if not isinstance(n, S):
            return res
        i0, j0, u0, thr = d["i0"].e, d["j0"].e, d["u0"], d["thr"]
        kg = VEC(KEY(d["g0"].e))
        tables = [(p, o) for p, (o, s) in loop.heap.items() if isinstance(o, Table)]
        lists = [(p, o) for p, (o, s) in loop.heap.items() if isinstance(o, NumList)]
        val = lambda t, i: ceq(t.fn(S(i)), vdot(at(i), Vec([(kg, 1)])))
        if n.e.eq(d["dim"].e):
            def names(st):
                return [x for x in st.loop.entry if isinstance(st[x], Vec)]

            def facts(st, ket, old):
                """Hypotheses that hold for every inner product, instantiated where the proof needs them."""
                k = zi(st.k)
                x, y = ket.terms[0][0], old.terms[0][0]
                c.assume(K(k) == x)
                d["x"], d["y"], d["k"] = x, y, k
                ats = [x, y, K(i0), K(j0), K(i0 - 1), K(j0 - 1), K(i0 + 1), K(j0 + 1), u0]
                herm([(a, b) for a in (x, y, K(i0), K(j0), K(i0 + 1), K(i0 - 1)) for b in (x, y, K(i0), K(j0), K(i0 - 1), K(j0 - 1))])
                ms = [MAP(M, a) for a in ats]
                c.assume(Implies(k == 0, y == ZERO))
                null(y, k == 0, [u0, x, MAP(M, x), K(i0), K(j0)])
                for t in (i0, j0):
                    null(K(t - 1), t == 0, [u0, x, y, K(i0), K(j0), MAP(M, x), MAP(M, K(i0)), MAP(M, K(j0))])

            vecs = [x for x, v in loop.entry.items() if isinstance(v, Vec)]
            import itertools as it
            pairs = [(a, b) for a, b in it.permutations(vecs, 2) if loop.entry[a].terms and not loop.entry[b].terms]
            for a, b in pairs[:1]:      # one ghost sequence only
                tag = "[%s, %s] " % (a, b)

                def both(st, a=a, b=b):
                    ket, old = st[a], st[b]
                    k = zi(st.k)
                    if st.assuming and len(ket.terms) == 1 and len(old.terms) == 1:
                        facts(st, ket, old)
                        c.assume(K(k) == ket.terms[0][0])
                    B = Basis(k, ket)
                    if st.assuming:
                        d["basis"] = B
                    return k, ket, old, B

                def previous(st, both=both):
                    k, ket, old, B = both(st)
                    if not old.terms:
                        return k == 0
                    if len(old.terms) != 1 or old.terms[0][1] != 1:
                        return None
                    return old.terms[0][0] == K(k - 1)

                def unit(st, both=both):
                    k, ket, old, B = both(st)
                    idx = [i0, j0, k, k - 1, i0 - 1, i0 + 1, j0 - 1] if st.assuming else [i0]
                    return And([Implies(And(i >= 0, i <= k), B.unit(i)) for i in idx])

                def orth(st, both=both):
                    k, ket, old, B = both(st)
                    if st.assuming:
                        base = [i0, j0, i0 - 1, i0 + 1, j0 - 1, j0 + 1, k - 1, k]
                        prs = [(p, q) for p in base for q in base if not p.eq(q)]
                    else:
                        prs = [(i0, j0)]
                    return And([B.orth(p, q) for p, q in prs])

                def relation(st, both=both):
                    k, ket, old, B = both(st)
                    if st.assuming:
                        x = ket.terms[0][0]
                        prs = [(i0, u0), (i0, x), (k - 1, x), (j0, K(i0)), (i0, K(j0)), (k - 1, u0)]
                    else:
                        prs = [(i0, u0)]
                    return And([B.relation(i, u) for i, u in prs])

                def coupling(st, both=both):
                    k, ket, old, B = both(st)
                    return And([B.coupling(i, thr) for i in ([i0, j0, k - 1] if st.assuming else [i0])])

                def start(st, both=both):
                    k, ket, old, B = both(st)
                    # K(0) is the normalised start vector (tested against an arbitrary vector)
                    want = vdot(Vec([(u0, 1)]), Vec([(d["v0"], h_div(c, 1, d["nu"](c)))]))
                    first = B.plus(z3.IntVal(0), lambda v: ceq(vdot(Vec([(u0, 1)]), v), want))
                    return first
                def recorded(f):
                    def g(st):
                        r = f(st)
                        if st.assuming and r is not None:
                            d.setdefault("hyps", []).append(r)
                        return r
                    return g
                previous, unit, orth, relation, coupling = [recorded(f) for f in (previous, unit, orth, relation, coupling)]
                for lab, f in (("previous vector", previous), ("unit vectors", unit), ("orthogonal vectors", orth), ("three-term relation", relation),
                               ("real couplings above the threshold", coupling), ("start vector", start)):
                    res.append((tag + lab, f))

            for p, o in lists:
                res.append(("%s: one entry per vector" % (p,), lambda st, p=p: eqz(st.obj(p).n, st.k)))

                def dg(st, p=p):
                    i = i0
                    return Implies(And(i >= 0, i < zi(st.k)), ceq(st.obj(p).fn(S(i)), vdot(at(i), image(at(i))).re))

                def off(st, p=p):
                    fs = [Implies(And(i >= 1, i < zi(st.k)), ceq(st.obj(p).fn(S(i)), vdot(at(i - 1), image(at(i))).re)) for i in ([i0, j0] if st.assuming else [i0])]
                    return And(fs)
                res.append(("%s: diagonal entries" % (p,), dg))
                res.append(("%s: off-diagonal entries" % (p,), off))
            for p, o in tables:
                res.append(("table has every key", lambda st, p=p: st.obj(p).has))
                res.append(("table of lists", lambda st, p=p: Not(st.obj(p).arr)))
                res.append(("one overlap per vector", lambda st, p=p: eqz(st.obj(p).n, st.k)))
                res.append(("overlaps", lambda st, p=p: Implies(i0 < zi(st.k), val(st.obj(p), i0))))
        if n.e.eq(d["nk"].e):
            g = d["g0"].e
            for p, (o, s) in loop.heap.items():
                if not isinstance(o, Table):
                    continue
                res.append(("keys stored so far", lambda st, p=p: st.obj(p).has == (g < zi(st.k))))
                res.append(("table has every key", lambda st, p=p: st.obj(p).has))
                res.append(("keys so far are there", lambda st, p=p: Implies(g < zi(st.k), st.obj(p).has)))
                res.append(("arrays so far", lambda st, p=p: st.obj(p).arr == (g < zi(st.k))))
                res.append(("table of lists", lambda st, p=p: Not(st.obj(p).arr)))
                res.append(("lengths unchanged", lambda st, p=p, s=s: eqz(st.obj(p).n, s[2])))
                res.append(("one more overlap", lambda st, p=p, s=s: eqz(st.obj(p).n, add(s[2], ite(S(g < zi(st.k)), 1, 0)))))
                res.append(("values unchanged", lambda st, p=p, s=s: Implies(lt(S(i0), s[2]), ceq(st.obj(p).fn(S(i0)), s[3](S(i0))))))
                res.append(("overlaps", lambda st, p=p: Implies(lt(S(i0), st.obj(p).n), val(st.obj(p), i0))))
        return res

    def h_div(c, a, b):
        return c.ver.rt.binop("/", a, b)

    def body(rt, c):
        h = H(rt, c)
        dim, nk, i0, j0, g0, u0, v0, thr = setup(h)
        from pyvc import npmodel
        c.data["nu"] = lambda c: npmodel.sqrt1(inner(v0, v0).re)
        nu = c.data["nu"](c)
        vectors = Vectors(nk)
        start = Vec([(v0, 1)])
        mat = Op([(M, 1)], h.int("N"))
        r = h.outcome(h.get(LZ, "KrylovRepresentation"), mat, vectors, start, dim)
        if r[0] == "raise":
            h.ensure("only a negligible start vector is rejected, with ValueError", And(le(nu, thr), z3.BoolVal(r[1] == "ValueError")))
            raise PathEnd()
        h.ensure("negligible start vectors are rejected", gt(nu, thr))
        if not (isinstance(r[1], tuple) and len(r[1]) == 2 and isinstance(r[1][0], SArr) and isinstance(r[1][1], Table)):
            h.fail("a matrix and a dict of vectors are returned")
            raise PathEnd()
        T, P = r[1]
        m = T.shape[0]
        k = c.data.get("k")
        h.ensure("square matrix", eqz(T.shape[1], m))
        h.ensure("at least one and at most the requested number of vectors", And(ge(m, 1), le(m, dim)))
        # the vectors K(0..m-1); the invariants speak about them
        i, j = i0.e, j0.e
        h.requires(And(i < zi(m), j < zi(m)))
        t = T.reader()((S(i), S(j)))
        h.ensure("matrix elements of M in the Krylov basis", ceq(t, vdot(at(i), image(at(j)))))
        h.ensure("the matrix elements are real", eqz(cparts(t)[1], 0))
        h.ensure("orthonormal basis", And(Implies(i != j, ceq(vdot(at(i), at(j)), 0)), eqz(norm2(at(i)), 1)))
        h.ensure("tridiagonal", Implies(Or(i > j + 1, j > i + 1), ceq(t, 0)))
        want = vdot(Vec([(u0, 1)]), Vec([(v0, h_div(c, 1, nu))]))
        h.ensure("the first basis vector is the normalised start vector", ceq(vdot(Vec([(u0, 1)]), at(z3.IntVal(0))), want))
        # why it stopped
        last = zi(m) - 1
        resid = resid_of(last)
        h.ensure("stops at the requested dimension or at a negligible residual", Or(eqz(m, dim), le(norm2(resid), mul(thr, thr))))
        h.ensure("does not stop earlier, and continues along the residual", Implies(i + 1 < zi(m), gt(vdot(at(i + 1), image(at(i))).re, thr)))
        h.ensure("overlaps for every key", And(P.has, P.arr))
        h.ensure("one overlap per basis vector", eqz(P.n, m))
        h.ensure("overlaps with the same basis, in order", ceq(P.fn(S(i)), vdot(at(i), Vec([(VEC(KEY(g0.e)), 1)]))))
        h.ensure("inputs unchanged", And(vectors.unchanged(), z3.BoolVal(len(start.terms) == 1 and start.terms[0][0].eq(v0) and start.terms[0][1] == 1 and len(mat.terms) == 1 and mat.terms[0][1] == 1)))

    def resid_of(i):
        mk = image(at(i))
        return Vec(mk.terms + [(K(i), sub(0, vdot(at(i), mk).re)), (K(i - 1), sub(0, vdot(at(i - 1), mk).re))])
    out.append(Task("KrylovRepresentation", body, [LZ + ".KrylovRepresentation"], modules=[LZ], invariants=krylov, max_paths=400, budget=400,
                    uses={"new-list": lambda rt: NumList(), "new-dict": lambda rt: Table(), "np.diag": diag, "np.norm": norm},
                    assumes=["numpy.vdot/linalg.norm are the inner product and its norm; M is Hermitian", "numpy.diag places a list on the k-th diagonal",
                             "krylov_space_dim is at least 1"]))
    
    # -- the multi-vector driver, over the contract of KrylovRepresentation --------------------
    def representation(rt, f, args, kw):
        c = Ctx.cur
        env = rt.bind_args(f, args, kw).vars
        d = c.data
        h = H(rt, c)
        v0, vs = env.get("v0"), env.get("vectors")
        if not isinstance(v0, Vec) or len(v0.terms) != 1 or not (v0.terms[0][1] == 1):
            raise Unsupported("another start vector")
        h.ensure("the given matrix, vectors and dimension are passed on", And(z3.BoolVal(env.get("M") is d["mat"] and vs is d["vectors"]), eqz(env.get("krylov_space_dim"), d["dim"])))
        t = v0.terms[0][0]
        if rt.truth(S(NEGLIGIBLE(t))):
            raise PyRaise(ValueError("The given `v0` is a zero vector."))
        return (Token("matrix", MATRIX(t)), Token("overlaps", OVERLAPS(t)))

    def multi_inv(loop):
        d = Ctx.cur.data
        res = []
        g = d["g0"].e
        for p, (o, s) in loop.heap.items():
            if isinstance(o, Tokens):
                res.append(("keys so far", lambda st, p=p: st.obj(p).has == (g < zi(st.k))))
                for lab, F in (("matrix", MATRIX), ("overlaps", OVERLAPS)):
                    res.append(("%s: %s of the key" % (p, lab), lambda st, p=p, F=F, lab=lab: Implies(st.obj(p).has, And(st.obj(p).code == F(VEC(KEY(g))), st.obj(p).kind == (0 if lab == "matrix" else 1)))))
        res.append(("no negligible vector so far", lambda st: Implies(g < zi(st.k), Not(NEGLIGIBLE(VEC(KEY(g)))))))
        return res

    def multi(rt, c):
        h = H(rt, c)
        nk, g0 = h.int("nk"), h.int("g")
        h.requires(And(nk.e >= 0, g0.e >= 0, g0.e < nk.e))
        vectors, mat = Vectors(nk), Op([(M, 1)], h.int("N"))
        # keyword or default dimension
        given = h.choose([True, False], "dimension given")
        dim = h.int("dim") if given else 200
        c.data.update(nk=nk, g0=g0, mat=mat, vectors=vectors, dim=dim)
        f = h.get(LZ, "MultiKrylov")
        how = h.choose(["positional", "keyword"], "call")
        r = h.outcome(f, mat, vectors, *([dim] if given and how == "positional" else []), **({"krylov_space_dim": dim} if given and how == "keyword" else {}))
        if r[0] == "raise":
            h.ensure("ValueError", z3.BoolVal(r[1] == "ValueError"))
            raise PathEnd()
        h.ensure("negligible vectors are rejected", Not(NEGLIGIBLE(VEC(KEY(g0.e)))))
        if not (isinstance(r[1], tuple) and len(r[1]) == 2 and all(isinstance(x, Tokens) for x in r[1])):
            h.fail("two dicts are returned")
            return
        A, P = r[1]
        h.ensure("a projected matrix for every key, with it as start vector", And(A.has, A.kind == 0, A.code == MATRIX(VEC(KEY(g0.e)))))
        h.ensure("projected vectors for every key, with it as start vector", And(P.has, P.kind == 1, P.code == OVERLAPS(VEC(KEY(g0.e)))))
        h.ensure("inputs unchanged", And(vectors.unchanged(), z3.BoolVal(len(mat.terms) == 1 and mat.terms[0][1] == 1)))
    out.append(Task("MultiKrylov", multi, [LZ + ".MultiKrylov"], modules=[LZ], invariants=multi_inv, max_paths=400, budget=200,
                    uses={"new-dict": lambda rt: Tokens(), LZ + ".KrylovRepresentation": representation},
                    assumes=["the keys of a mapping are distinct"]))

    def threshold(rt, c):
        h = H(rt, c)
        t = h.real("threshold")
        ok = h.outcome(h.get(LZ, "set_threshold"), t)
        now = rt.modules[LZ].env["_VIEW_AS_ZERO"]
        if ok[0] == "ok":
            h.ensure("the threshold is the given one", And(eqz(now, t), ge(t, 0)))
        else:
            h.ensure("negative thresholds are rejected", And(lt(t, 0), z3.BoolVal(ok[1] == "AssertionError")))
    out.append(Task("set_threshold", threshold, [LZ + ".set_threshold"], modules=[LZ], assumes=[]))
    return out
