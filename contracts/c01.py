"""C01: fermionic matrices are the canonical Fock-space action (any string, any bases)."""
from .base import *
from pyvc.sarr import SArr, FArr, as_sarr
from pyvc.seqs import SList, SSeq

MR = "HamiltonianPy.quantumoperator.matrixrepr"
I, B, W64 = z3.IntSort(), z3.BoolSort(), z3.BitVecSort(64)
ONE, ZERO = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
P = z3.Function("odd_number_of_particles_below", W64, W64, B)   # P(x, n): parity of the bits 0..n-1 of x
TRUST = ["numba runs the Python semantics of the decorated loops on 64-bit words", "numpy.searchsorted returns the insertion point in an ascending array",
         "csr_matrix((v, (r, c)), shape) is the sum of v[k]|r[k]><c[k]| (all indices within the shape), eliminate_zeros keeps the matrix",
         "boolean mask indexing keeps exactly the selected columns, in order", "at most 64 states (state indices 0..63), as 64-bit occupation numbers require"]


class Problem:
    """An operator string and its bases."""

    def __init__(self, h, left, string=None):
        c = h.c
        self.h = h
        self.R = z3.Function("right", I, W64)
        self.n = h.int("right_dim")
        h.requires(self.n.e >= 0)
        self.right = SArr((self.n,), lambda j: S(self.R(zi(j[0]))), "v")
        if left:
            self.L = z3.Function("left", I, W64)
            self.m = h.int("left_dim")
            h.requires(self.m.e >= 0)
            self.left = SArr((self.m,), lambda j: S(self.L(zi(j[0]))), "v")
        else:
            self.L, self.m, self.left = self.R, self.n, None
        if string is None:
            self.T = h.int("length")
            h.requires(self.T.e >= 0)
            X, O = z3.Function("state_index", I, W64), z3.Function("otype", I, I)

            def at(k):
                k = zi(k)
                c.assume(And(z3.ULT(X(k), 64), O(k) >= 0, O(k) <= 1))
                return (S(X(k)), S(O(k)))
            self.term = h.choose([lambda: SList(self.T, at), lambda: SSeq(self.T, at, tuple)], "kind")()
            self.index, self.create = (lambda k: X(k)), (lambda k: O(k) == 1)
        else:
            self.T = len(string)
            self.term = [(S(i), 1 if cr else 0) for i, cr in string]
            for i, _ in string:
                h.requires(z3.ULT(i, 64))

            def index(k):
                e = string[-1][0]
                for q in range(len(string) - 1):
                    e = If(k == q, string[q][0], e)
                return e

            def create(k):
                return Or([k == q for q, (_, cr) in enumerate(string) if cr] + [z3.BoolVal(False)])
            self.index, self.create = index, create
        # the canonical action: after m operators (from the right) on the ket of column i
        self.K = z3.Function("ket", I, I, W64)
        self.A = z3.Function("alive", I, I, B)
        self.G = z3.Function("odd", I, I, B)
        self.ALL = z3.Bool("every_image_in_left")
        self.w = z3.Int("missing_column")
        self.at = z3.Function("row_of", I, I)
        self.q = h.int("column")          # an arbitrary column
        self.positions = []
        self.string = string
        c.assume(Implies(Not(self.ALL), And(self.w >= 0, self.w < zi(self.n), self.A(self.w, zi(self.T)))))
        c.data["problem"] = self

    def ascending(self, p, q):
        c = self.h.c
        for f in {self.L, self.R} if self.L is not self.R else {self.L}:
            n = self.m if f is self.L else self.n
            ok = And(p >= 0, p < zi(n), q >= 0, q < zi(n))
            c.assume(Implies(ok, And(Implies(p < q, z3.ULT(f(p), f(q))), Implies(q < p, z3.ULT(f(q), f(p))))))

    def column(self, i):
        """Facts about column i."""
        c, T = self.h.c, zi(self.T)
        c.assume(And(self.K(i, 0) == self.R(i), self.A(i, 0), Not(self.G(i, 0))))
        p = self.at(i)
        c.assume(Implies(And(self.ALL, i >= 0, i < zi(self.n), self.A(i, T)), And(p >= 0, p < zi(self.m), self.L(p) == self.K(i, T))))
        if not any(p.eq(x) for x in self.positions):
            self.positions.append(p)
        if self.string is not None:
            for m in range(len(self.string)):
                self.unfold(i, z3.IntVal(m), column=False)
            self.exchange(i)

    def exchange(self, i):
        """Instances of the parity lemma for the states of a short string."""
        c = self.h.c
        states = []
        for x, _ in self.string:
            if not any(x.eq(y) for y in states):
                states.append(x)
        ket = self.R(i)
        for x in states:
            parity_facts(c, ket, x)
            for y in states:
                c.assume(flip(ket, x, y))
        if len(self.string) == 4:
            a, b = self.string[0][0], self.string[2][0]
            for x in (a, b):
                for y in (a, b):
                    c.assume(flip(ket ^ (ONE << x), y, x))

    def unfold(self, i, m, column=True):
        """One more operator on column i."""
        if column:
            self.column(i)
        c, T = self.h.c, zi(self.T)
        j = T - 1 - m
        x, cr = self.index(j), self.create(j)
        b = ONE << x
        ket = self.K(i, m)
        m = z3.simplify(m) if z3.is_int_value(m) else m
        c.assume(Implies(And(m >= 0, m < T), And(
            self.A(i, m + 1) == And(self.A(i, m), (ket & b) == If(cr, ZERO, b)),
            self.K(i, m + 1) == ket ^ b,
            self.G(i, m + 1) == z3.Xor(self.G(i, m), P(ket, x)))))
        # lemma: what has vanished stays vanished
        c.assume(Implies(And(m >= 0, m < T, Not(self.A(i, m + 1))), Not(self.A(i, T))))

    def missing(self, p):
        """The left basis does not hold the image of the missing column."""
        self.h.c.assume(Implies(And(Not(self.ALL), p >= 0, p < zi(self.m)), self.L(p) != self.K(self.w, zi(self.T))))


def parity_facts(c, x, n):
    c.assume(And(Not(P(x, ZERO)), Implies(z3.ULT(n, 64), P(x, n + 1) == z3.Xor(P(x, n), (x & (ONE << n)) != 0))))


def flip(x, i, j):
    """Flipping bit i changes the parity below j iff i < j (lemma)."""
    return P(x ^ (ONE << i), j) == z3.Xor(P(x, j), z3.ULT(i, j))


def searchsorted(rt, a, k):
    c = Ctx.cur
    pb = c.data["problem"]
    arr, v = a[0], a[1]
    if k or len(a) != 2 or not (isinstance(arr, SArr) and arr.store in [x.store for x in (pb.left, pb.right) if x is not None]) or not isinstance(v, S):
        return NotImplemented
    n = zi(arr.shape[0])
    idx = fresh("i", "pos")
    c.assume(And(idx.e >= 0, idx.e <= n))
    for p in pb.positions + [idx.e]:
        c.assume(Implies(And(p >= 0, p < n), (p < idx.e) == z3.ULT(zbv(arr.get((S(p),))), v.e)))
        pb.ascending(p, idx.e)
    pb.missing(idx.e)
    return idx


class Csr:
    model = True
    pytype = object

    def __init__(self, terms, shape):
        self.terms, self.shape = terms, shape

    def m_attr(self, rt, name):
        if name in ("eliminate_zeros", "sum_duplicates", "sort_indices"):
            return Native(name, lambda r, a, k: None)
        if name in ("tocsr", "copy"):
            return Native(name, lambda r, a, k: self)
        if name == "shape":
            return self.shape
        raise Unsupported("attribute %s of the matrix" % name)


def column_of(v):
    """(mask, value) of position k of an array or a masked selection."""
    if isinstance(v, FArr) and v.ndim == 1:
        return lambda k: (v.mask(k), v.fn((k,))), v.src_n, v
    if isinstance(v, SArr) and v.ndim == 1:
        return lambda k: (z3.BoolVal(True), v.get((k,))), v.shape[0], None
    raise Unsupported("not a symbolic vector: %r" % (v,))


def coo(rt, a, k):
    c = Ctx.cur
    h = H(c.ver.rt, c)
    m = a[0] if a else k.get("arg1")
    shape = a[1] if len(a) > 1 else k.get("shape")
    if not (isinstance(m, (tuple, list)) and len(m) == 2 and isinstance(m[1], (tuple, list)) and len(m[1]) == 2) or shape is None:
        raise Unsupported("csr_matrix of something else")
    return Csr(triples(h, m), shape)


def triples(h, m):
    """k -> (present, row, column, value) of a coordinate form."""
    fs = [column_of(x) for x in (m[1][0], m[1][1], m[0])]
    masks = [f[2] for f in fs]
    if any(x is not None for x in masks) and not all(x is not None and x.mask is masks[0].mask for x in masks):
        k = h.int("k")
        h.ensure("the three vectors of the triple select the same columns", And(*[fs[0][0](k)[0] == f[0](k)[0] for f in fs[1:]]))
    for f in fs:
        h.ensure("one entry per column", eqz(f[1], fs[0][1]))

    def at(k):
        r, q, v = [f[0](k) for f in fs]
        return r[0], r[1], q[1], v[1]
    at.n = fs[0][1]
    return at


def action(loop):
    """Candidate invariants: the program follows the canonical action."""
    c = Ctx.cur
    pb = c.data.get("problem")
    if pb is None:
        return []
    h = pb.h
    out = []
    n = loop.n
    T = zi(pb.T)
    loops = [f for f in c.loops if getattr(f, "k", None) is not None]
    if isinstance(n, S) and sort_of(n.e) == "v":
        # over states: parities of the kets in scope
        words = {nm: v for nm, v in loop.env.vars.items() if isinstance(v, S) and sort_of(v.e) == "v" and nm not in loop.entry}
        start = loop.sym.start if hasattr(loop.sym, "start") else 0
        a = zbv(start)
        for nm, v0 in loop.entry.items():
            for wn, w in words.items():
                def par(st, nm=nm, v0=v0, w=w):
                    x = w.e
                    k = zbv(st.k)
                    parity_facts(c, x, a)
                    parity_facts(c, x, a + k)
                    return odd(st[nm]) == z3.Xor(odd(v0), z3.Xor(P(x, a), P(x, a + k)))
                def sgn(st, nm=nm, v0=v0, w=w):
                    x = w.e
                    k = zbv(st.k)
                    parity_facts(c, x, a)
                    parity_facts(c, x, a + k)
                    return neg(st[nm]) == z3.Xor(neg(v0), z3.Xor(P(x, a), P(x, a + k)))
                if parity_like(v0):
                    out.append(("%s counts the particles of %s" % (nm, wn), par))
                    out.append(("%s changes sign with the particles of %s" % (nm, wn), sgn))
        for nm, v0 in loop.entry.items():
            if parity_like(v0):
                out.append(("%s is a parity" % nm, lambda st, nm=nm: is_parity(st[nm])))
                out.append(("%s is a sign" % nm, lambda st, nm=nm: is_sign(st[nm])))
        return out
    if not (isinstance(n, S) and sort_of(n.e) == "i" or isinstance(n, int)):
        return []
    if loops and eq_dim(n, pb.T):
        i = zi(loops[0].k)

        def alive(st):
            m = zi(st.k)
            pb.unfold(i, m)
            return pb.A(i, m)
        out.append(("the ket has not vanished", alive))
        for nm, v0 in loop.entry.items():
            if isinstance(v0, S) and sort_of(v0.e) == "v":
                out.append(("%s is the ket" % nm, lambda st, nm=nm: st[nm].e == pb.K(i, zi(st.k))))
                out.append(("%s is the ket if that has not vanished" % nm, lambda st, nm=nm: Implies(alive(st), st[nm].e == pb.K(i, zi(st.k)))))
            if parity_like(v0):
                for how, f in (("is the sign", odd), ("is the sign, as a sign", neg)):
                    out.append(("%s %s" % (nm, how), lambda st, nm=nm, f=f: f(st[nm]) == pb.G(i, zi(st.k))))
                    out.append(("%s %s if the ket has not vanished" % (nm, how), lambda st, nm=nm, f=f: Implies(alive(st), f(st[nm]) == pb.G(i, zi(st.k)))))
                    out.append(("%s tells whether the ket has vanished (%s)" % (nm, how), lambda st, nm=nm, f=f: f(st[nm]) == alive(st)))
                    out.append(("%s tells whether the ket is alive (%s)" % (nm, how), lambda st, nm=nm, f=f: f(st[nm]) == Not(alive(st))))
                out.append(("%s is a parity" % nm, lambda st, nm=nm: is_parity(st[nm])))
                out.append(("%s is a sign" % nm, lambda st, nm=nm: is_sign(st[nm])))
        return out
    if not loops:
        q = pb.q.e

        def found(st):
            k = zi(st.k)
            pb.column(k)
            pb.column(q)
            pb.column(pb.w)
            pb.ascending(k, q)
            if pb.L is pb.R:
                pb.missing(k)
            return Implies(pb.w < k, pb.ALL)
        out.append(("no column so far has its image outside the left basis", found))
        for path, (o, snap) in loop.heap.items():
            def done(st, path=path):
                return Implies(And(q >= 0, q < zi(st.k)), correct(pb, Column(st.obj(path), q), q))

            def todo(st, path=path):
                o = Column(st.obj(path), q)
                return Implies(q >= zi(st.k), And([eqz(o(r), 0) for r in range(3)]))
            out += [("columns done", done), ("columns to do", todo)]
    return out


class Column:
    def __init__(self, store, q):
        self.store, self.q = store, q

    def __call__(self, r):
        return self.store.fn((r, S(self.q)))


def correct(pb, col, q):
    T = zi(pb.T)
    r, cc, v = [zi(col(x)) for x in range(3)]
    return If(pb.A(q, T), And(r >= 0, r < zi(pb.m), pb.L(r) == pb.K(q, T), cc == q, v == If(pb.G(q, T), z3.IntVal(-1), z3.IntVal(1))),
              And(r == 0, cc == 0, v == 0))


def eq_dim(n, T):
    if isinstance(n, int) or isinstance(T, int):
        return isinstance(n, int) and isinstance(T, int) and n == T
    return z3.simplify(n.e).eq(z3.simplify(zi(T)))


def parity_like(v):
    if isinstance(v, bool) or isinstance(v, S) and sort_of(v.e) == "b":
        return True
    return isinstance(v, int) and v in (-1, 0, 1) or isinstance(v, S) and sort_of(v.e) == "i"


def odd(v):
    """Parity read off a flag (0/1 or False/True) or a sign."""
    if isinstance(v, S):
        return v.e if sort_of(v.e) == "b" else v.e != 0
    return z3.BoolVal(bool(v))


def neg(v):
    """Parity read off a sign (1 or -1)."""
    if isinstance(v, S) and sort_of(v.e) == "b" or isinstance(v, bool):
        return None
    return zi(v) < 0


def is_sign(v):
    if isinstance(v, S) and sort_of(v.e) == "b" or isinstance(v, bool):
        return None
    return Or(eqz(v, 1), eqz(v, -1))


def is_parity(v):
    if isinstance(v, S) and sort_of(v.e) == "b" or isinstance(v, bool):
        return None
    return Or(eqz(v, 0), eqz(v, 1))


def same_matrix(h, pb, out, coeff, csr):
    """The outcome of matrix_function is the canonical one."""
    c = h.c
    T = zi(pb.T)
    if out[0] == "raise":
        h.ensure("only KeyError is raised", z3.BoolVal(out[1] == "KeyError"))
        h.ensure("KeyError only if an image is missing from the left basis", Not(pb.ALL))
        return
    h.ensure("a missing image raises KeyError", pb.ALL)
    m = out[1]
    q = pb.q
    h.requires(And(q.e >= 0, q.e < zi(pb.n)))
    pb.column(q.e)
    if csr:
        if not isinstance(m, Csr):
            h.fail("the result is a csr matrix")
            raise PathEnd()
        at = m.terms
        h.ensure("shape", h.value_eq(tuple(m.shape), (pb.m, pb.n)))
    else:
        if not (isinstance(m, tuple) and len(m) == 2 and len(m[1]) == 2):
            h.fail("the result is (entries, (rows, columns))")
            raise PathEnd()
        at = triples(h, m)
    h.ensure("one candidate entry per right ket", eqz(at.n, pb.n))
    here, r, cc, v = at(q)
    v = v if isinstance(v, (S, Cx)) or is_num(v) else v
    zero = value_eq(h.rt, v, 0)
    h.ensure("indices within the shape", Implies(here, And(ge(r, 0), lt(r, pb.m), ge(cc, 0), lt(cc, pb.n))))
    # entry (r0, c0) of the sum: only the candidate of column c0 contributes
    h.ensure("a candidate contributes to its own column only", Implies(And(here, Not(zero)), eqz(cc, q)))
    r0 = h.int("row")
    h.requires(And(r0.e >= 0, r0.e < zi(pb.m)))
    sign = S(If(pb.G(q.e, T), z3.IntVal(-1), z3.IntVal(1)))
    spec = ite(S(And(pb.A(q.e, T), pb.L(r0.e) == pb.K(q.e, T))), mul(coeff, sign), mul(coeff, 0))
    got = ite(S(And(here, eqz(r, r0), eqz(cc, q))), v, mul(coeff, 0))
    pb.ascending(r0.e, zi(r))
    h.ensure("entry of the matrix at any row and column", value_eq(h.rt, got, spec))
    if not csr:
        h.ensure("no zero entries for a non-zero coefficient", Implies(And(here, Not(value_eq(h.rt, coeff, 0))), Not(zero)))


USES = {"np.searchsorted": searchsorted, "scipy.csr_matrix": coo, "scipy.sparse.csr_matrix": coo}


def tasks():
    out = []

    def T(name, fn, functions, uses=None, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[MR], uses=dict(USES, **(uses or {})), assumes=TRUST, invariants=action, **kw))

    def general(h):
        left = h.choose([False, True], "left")
        pb = Problem(h, left)
        coeff = h.choose([h.real, h.cx, h.int], "coefficient")("coeff")
        csr = h.choose([True, False], "csr")
        kw = {"left_bases": pb.left} if left else {}
        f = h.get(MR, "matrix_function")
        o = h.outcome(lambda: h.call(f, pb.term, pb.right, coeff=coeff, to_csr=csr, **kw))
        same_matrix(h, pb, o, coeff, csr)
    T("matrix of any string on any bases", general, [MR + ".matrix_function", MR + "._core_general"], max_paths=3000, budget=300)

    def dead(h):
        """What has vanished stays vanished: induction on the number of operators."""
        A, ok = z3.Function("alive", I, B), z3.Function("ok", I, B)
        m, k, N = h.int("m").e, h.int("k").e, h.int("T").e
        h.requires(And(m >= 0, m <= N))
        h.ensure("base", Implies(Not(A(m)), Not(A(m))))
        h.requires(And(k >= m, k < N, A(k + 1) == And(A(k), ok(k))))
        h.ensure("step", Implies(Implies(Not(A(m)), Not(A(k))), Implies(Not(A(m)), Not(A(k + 1)))))
    T("lemma: what has vanished stays vanished", dead, [])
    from . import c03
    return out + [t for t in c03.tasks() if t.name.startswith("matrix of")]
