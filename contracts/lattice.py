"""Shared by the contracts of Lattice: opaque geometry of an arbitrary lattice.

Distances are an uninterpreted function of lattice coordinates: G(k, e, m) is the
distance between point k and the image of point e by the translation -m (so
G(k, e, 0) is the distance of the two points).  What the contracts assume of it
(separation of inequivalent points, non-negativity, Cauchy-Schwarz) is stated
where it is used; everything else is linear arithmetic over coordinates.
"""
import itertools

from .base import *
from pyvc import sarr
from pyvc.sarr import SArr, conc, plus
from pyvc.seqs import SSeq, SIter, SRange, proto

LAT = "HamiltonianPy.lattice.lattice"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
EPS = Fraction(1e-4)


def as_int(e):
    """Integer term of a real term built from integers, or None."""
    if z3.is_int(e):
        return e
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [as_int(x) for x in e.children()]
        if any(x is None for x in cs):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        r = cs[0]
        for x in cs[1:]:
            r = r - x if k == z3.Z3_OP_SUB else r * x
        return r
    if k == z3.Z3_OP_ITE:
        a, b = as_int(e.arg(1)), as_int(e.arg(2))
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def valid(f):
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(Not(f))
    return s.check() == z3.unsat


class Lin:
    """sum of signs * point(k) + sum of signs * named site + m . vectors"""

    def __init__(self, pts, sites, m):
        self.pts, self.sites, self.m = pts, sites, m


class Geometry:
    def __init__(self, h, d, t, n=None):
        self.h, self.c, self.d, self.t = h, h.c, d, t
        h.c.data["geometry"] = self
        self.n = n if n is not None else h.int("n")
        h.requires(zi(self.n) >= 1)
        self.P = z3.Function(h.c.name("point"), I, I, R)
        self.V = h.mat(t, d, "a")
        self.X = [[z3.Real(h.c.name("x%d%d" % (i, q))) for q in range(d)] for i in range(t)]
        self.G = z3.Function(h.c.name("distance"), *([I] * (2 + t) + [R]))
        self.NB = [z3.Real(h.c.name("b%d" % i)) for i in range(t)]
        self.pi = z3.Real("pi")
        self.eps = z3.RealVal(EPS)  # points closer than this are the same point
        for x in self.NB:
            h.c.assume(x >= 0)
        self.points = SArr((self.n, d), lambda j: S(self.P(zi(j[0]), zi(j[1]))), "r")
        self.sites = []
        self.alias = {}
        self.interest = []          # positions of points to which general facts are applied
        self.keep = []

    def dual(self):
        """a_i . x_j = delta_ij (contract of the reciprocal vectors, C12)."""
        return And([sum((zr(self.V[i, q]) * self.X[j][q] for q in range(1, self.d)), zr(self.V[i, 0]) * self.X[j][0]) == (1 if i == j else 0)
                    for i in range(self.t) for j in range(self.t)])

    # -- linear forms ---------------------------------------------------------------
    def atoms(self, e, acc):
        if z3.is_app(e):
            if e.decl().eq(self.P):
                acc.setdefault(e.get_id(), e)
                return
            for x in e.children():
                self.atoms(x, acc)

    def linear(self, vec):
        """The linear form of a vector of d real terms, or None."""
        es = [z3.simplify(zr(x), som=True) for x in vec]
        if len(es) != self.d:
            return None
        names = []
        V = [zr(self.V[i, q]) for i in range(self.t) for q in range(self.d)]
        S_ = [x for s in self.sites for x in s.s]
        pts, sites, m = None, None, None
        for q, e in enumerate(es):
            acc = {}
            self.atoms(e, acc)
            apps = list(acc.values())
            atoms = V + S_ + apps

            def coef(a):
                r = z3.simplify(z3.substitute(e, *[(x, z3.RealVal(1 if a is not None and x.eq(a) else 0)) for x in atoms]), som=True)
                return r
            if atoms and not z3.is_rational_value(coef(None)) or (z3.is_rational_value(coef(None)) and coef(None).as_fraction() != 0):
                return None
            cs = [(a, coef(a)) for a in atoms]
            if not z3.is_rational_value(z3.simplify(e - z3.Sum([k * a for a, k in cs]), som=True)) and not valid(e == z3.Sum([k * a for a, k in cs])):
                return None
            p, st, mm = [], [], []
            for a, k in cs:
                zero = z3.is_rational_value(k) and k.as_fraction() == 0
                if any(a.eq(v) for v in V):
                    i = [x.eq(a) for x in V].index(True)
                    if i % self.d != q:
                        if not zero:
                            return None
                        continue
                    k = as_int(k)
                    if k is None:
                        return None
                    mm.append(z3.simplify(k))
                elif zero:
                    continue
                elif not z3.is_rational_value(k) or abs(k.as_fraction()) != 1:
                    return None
                elif any(a.eq(x) for x in S_):
                    j = [x.eq(a) for x in S_].index(True)
                    if j % self.d != q:
                        return None
                    st.append((int(k.as_fraction()), self.sites[j // self.d]))
                else:
                    if not (z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == q):
                        return None
                    p.append((int(k.as_fraction()), a.arg(0)))
            if pts is None:
                pts, sites, m = p, st, mm
                continue
            if len(p) != len(pts) or len(st) != len(sites):
                return None
            p2 = []
            for s, a in pts:
                hit = [x for x in p if x[0] == s and x[1].eq(a)]
                if not hit:
                    return None
            if any(x not in sites for x in st):
                return None
            for x, y in zip(m, mm):
                if not x.eq(y) and not valid(x == y):
                    return None
        return Lin(pts, sites, m)

    def distance(self, L):
        """The length of a vector given as a linear form: a term of G with its facts."""
        c = Ctx.cur
        if L is None:
            return None
        plus_ = [x for s, x in L.sites if s > 0] + [x for s, x in L.pts if s > 0]
        minus = [x for s, x in L.sites if s < 0] + [x for s, x in L.pts if s < 0]
        m = L.m
        if any(isinstance(x, Site) for x in minus):
            plus_, minus, m = minus, plus_, [z3.simplify(-x) for x in m]
        if not plus_ and not minus:
            k = z3.IntVal(0)
            return self.length(k, k, m)
        if len(plus_) != 1 or len(minus) != 1 or isinstance(minus[0], Site):
            return None
        a, e = plus_[0], minus[0]
        if isinstance(a, Site):
            return a.distance(e, m)
        return self.length(a, e, m)

    def length(self, k, e, m):
        """|point(k) - point(e) + m . vectors|"""
        c = Ctx.cur
        m = [z3.simplify(x) for x in m]
        g = self.G(k, e, *m)
        rng = And(k >= 0, k < zi(self.n), e >= 0, e < zi(self.n))
        same = And([k == e] + [x == 0 for x in m])
        c.assume(Implies(rng, And(g >= 0, Implies(g < self.eps, same), Implies(same, g == 0))))
        return g

    def name_of(self, e):
        """An opaque constant for a (nonlinear) term; the same for the same term."""
        e = z3.simplify(e, som=True)
        k = e.get_id()
        if k not in self.alias:
            self.keep.append(e)
            self.alias[k] = z3.Real(Ctx.cur.name("term"))
        return self.alias[k]


class Site:
    """An arbitrary site: point c plus m . vectors, or one off the lattice."""

    def __init__(self, g, inside, tag=""):
        h, self.g, self.inside = g.h, g, inside
        d, t = g.d, g.t
        nm = h.c.name("site" + tag)
        self.s = [z3.Real("%s_%d" % (nm, q)) for q in range(d)]
        g.sites.append(self)
        if inside:
            self.k = h.int("k").e
            h.requires(And(self.k >= 0, self.k < zi(g.n)))
            self.m = [h.int("m%d" % i).e for i in range(t)]
            self.T = [z3.Real("%s_T%d" % (nm, q)) for q in range(d)]
            for q in range(d):
                h.c.assume(self.s[q] == g.P(self.k, z3.IntVal(q)) + self.T[q])
            g.interest.append(self.k)
        else:
            self.D = z3.Function("%s_distance" % nm, *([I] * (1 + t) + [R]))

    def vector(self):
        a = np.empty((self.g.d,), dtype=object)
        for q in range(self.g.d):
            a[q] = S(self.s[q])
        return a

    def distance(self, e, m):
        """|site - point(e) + m . vectors|"""
        c, g = Ctx.cur, self.g
        m = [z3.simplify(x) for x in m]
        if self.inside:
            r = g.length(self.k, e, [z3.simplify(x + y) for x, y in zip(self.m, m)])
            if all(z3.is_int_value(x) and x.as_long() == 0 for x in m):
                # Cauchy-Schwarz for point(k) itself: |m_i| 2 pi = |b_i . T| <= |b_i| |T|  (lemma proved by the contract)
                T = g.G(self.k, self.k, *self.m)
                for i in range(g.t):
                    for x in (self.m[i], -self.m[i]):
                        c.assume(2 * g.pi * z3.ToReal(x) <= g.NB[i] * T)
            return r
        r = self.D(e, *m)
        c.assume(Implies(And(e >= 0, e < zi(g.n)), r >= g.eps))
        return r


def geometry():
    g = Ctx.cur.data.get("geometry")
    if g is None:
        raise Unsupported("no lattice here")
    return g


# -- contracts of library functions -----------------------------------------------------
def pdist(rt, a, k):
    """Any distances: which vectors or points are rejected as duplicates is not decided here."""
    c = Ctx.cur
    n = fresh("i", "pairs")
    c.assume(n.e >= 0)
    f = z3.Function(c.name("distance"), I, R)
    return SArr((n,), lambda j: S(f(zi(j[0]))), "r")


def solve(rt, a, kw):
    """(V V^T) X = V for independent V: X is dual to V (C12)."""
    c = Ctx.cur
    g = c.data.get("geometry")
    if g is None or len(a) != 2:
        return NotImplemented
    A, Bm = a
    if not (isinstance(A, np.ndarray) and isinstance(Bm, np.ndarray) and A.shape == (g.t, g.t) and Bm.shape == (g.t, g.d)):
        return NotImplemented
    for i in range(g.t):
        for j in range(g.t):
            w = zr(add(*[mul(g.V[i, q], g.V[j, q]) for q in range(g.d)]))
            if not valid(zr(A[i, j]) == w):
                return NotImplemented
        for q in range(g.d):
            if not valid(zr(Bm[i, q]) == zr(g.V[i, q])):
                return NotImplemented
    out = np.empty((g.t, g.d), dtype=object)
    for i in range(g.t):
        for q in range(g.d):
            out[i, q] = S(g.X[i][q])
    return out


def product(rt, a, rep):
    """Every combination exactly once: rank is the position of a combination."""
    c = Ctx.cur
    its = list(a) * (rep if isinstance(rep, int) else 0)
    ps = [proto(rt, x) or proto(rt, SSeq(len(rt.to_list(x)), lambda k, xs=rt.to_list(x): rt.seqs.pick(rt, list(xs), k), tuple)) for x in its]
    if not ps:
        raise Unsupported("product of nothing")
    ns = [zi(p.length(rt)) for p in ps]
    n = z3.Int(c.name("combinations"))
    c.assume(And(n >= 0, (n >= 1) == And([m >= 1 for m in ns])))
    fs = [z3.Function(c.name("index%d" % q), I, I) for q in range(len(ps))]
    rk = z3.Function(c.name("rank"), *([I] * (len(ps) + 1)))

    def at(k):
        e = zi(k)
        Ctx.cur.assume(Implies(And(e >= 0, e < n), And([And(f(e) >= 0, f(e) < m) for f, m in zip(fs, ns)] + [rk(*[f(e) for f in fs]) == e])))
        return tuple(p.at(rt, S(f(e))) for p, f in zip(ps, fs))

    def rank(*idx):
        idx = [z3.simplify(i) for i in idx]
        r = rk(*idx)
        Ctx.cur.assume(Implies(And([And(i >= 0, i < m) for i, m in zip(idx, ns)]), And([r >= 0, r < n] + [f(r) == i for f, i in zip(fs, idx)])))
        return r

    def locate(ms):
        """Positions where the combination could be ms."""
        if len(ms) != len(ps):
            return []
        idx = []
        for p, m in zip(ps, ms):
            r = getattr(p, "x", p)
            if not isinstance(r, SRange) or r.step != 1:
                return []
            idx.append(m - zi(r.start))
        return [rank(*idx)]
    c.data.setdefault("products", []).append(locate)
    return SIter(SSeq(S(n), at, tuple))


def rows(v):
    """(number of rows, row -> list of d terms) of a two-dimensional array."""
    if isinstance(v, SArr) and v.ndim == 2 and isinstance(v.shape[1], int):
        rd = v.reader()
        return v.shape[0], lambda e: [rd((e, q)) for q in range(v.shape[1])]
    if isinstance(v, np.ndarray) and v.ndim == 2:
        return v.shape[0], lambda e: list(v[conc(e)])
    return None, None


class Tree:
    """cKDTree(data): query(x) gives the distance to, and the position of, a nearest row."""
    model = True

    def __init__(self, rt, data):
        self.data = data.copy()
        self.n, self.row = rows(self.data)
        if self.n is None:
            raise Unsupported("tree of %r" % (data,))
        g = geometry()
        if isinstance(self.n, int):
            self.forms = [g.linear(self.row(e)) for e in range(self.n)]
            if any(f is None or f.pts or f.sites for f in self.forms):
                raise Unsupported("tree of rows that are not translations")
        else:
            self.forms = None

    def m_attr(self, rt, name):
        if name == "query":
            return Native(name, lambda r, a, k: self.query(r, a, k))
        if name == "n":
            return self.n if isinstance(self.n, int) else S(zi(self.n))
        if name == "data":
            return self.data.copy()
        raise Unsupported("cKDTree.%s" % name)

    def query(self, rt, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported("cKDTree.query with options")
        x = a[0]
        g = geometry()
        if isinstance(x, np.ndarray) and x.ndim == 1 or isinstance(x, SArr) and x.ndim == 1:
            v = [sarr.as_sarr(rt, x).get((q,)) for q in range(g.d)]
            D, W = self.nearest(rt, lambda j: v)
            return S(D(z3.IntVal(0))), S(W(z3.IntVal(0)))
        n, row = rows(x)
        if n is None:
            raise Unsupported("cKDTree.query of %r" % (x,))
        D, W = self.nearest(rt, row)
        return SArr((n,), lambda j: S(D(zi(j[0]))), "r"), SArr((n,), lambda j: S(W(zi(j[0]))), "i")

    def nearest(self, rt, qrow):
        c, g = Ctx.cur, geometry()
        Df, Wf = z3.Function(c.name("nearest"), I, R), z3.Function(c.name("which"), I, I)
        Mf = [z3.Function(c.name("shift%d" % i), I, I) for i in range(g.t)]
        sub_ = lambda u, v: [arith("-", x, y) for x, y in zip(u, v)]

        def dist(vec):
            r = g.distance(g.linear(vec))
            if r is None:
                raise Unsupported("distance of vectors that are not sites")
            return r
        done = {}

        def facts(j):
            if j.get_id() in done:
                return
            done[j.get_id()] = j
            q = qrow(S(j))
            D, w = Df(j), Wf(j)
            if self.forms is not None:
                Mj = [f(j) for f in Mf]
                tr = [add(*[mul(S(m), g.V[i, p]) for i, m in enumerate(Mj)]) for p in range(g.d)]
                Ctx.cur.assume(And(D == dist(sub_(q, tr)), Or([And([w == r] + [x == y for x, y in zip(Mj, L.m)]) for r, L in enumerate(self.forms)])))
                for s in g.sites:
                    if s.inside:
                        tr = [add(*[mul(S(m), g.V[i, p]) for i, m in enumerate(s.m)]) for p in range(g.d)]
                        has = Or([And([x == y for x, y in zip(s.m, L.m)]) for L in self.forms])
                        Ctx.cur.assume(Implies(has, D <= dist(sub_(q, tr))))
                return
            n = zi(self.n)
            Ctx.cur.assume(Implies(n >= 1, And(w >= 0, w < n, D == dist(sub_(q, self.row(S(w)))))))
            cands = list(g.interest)
            for s in g.sites:
                if s.inside:
                    for loc in c.data.get("products", []):
                        cands += loc(s.m)
            L = g.linear(self.row(S(z3.Int(c.name("row")))))
            points = L is not None and bool(L.pts)
            lq = g.linear(q)
            if points and lq is not None:
                cands += [x for s, x in lq.pts]
            for e in cands:
                Ctx.cur.assume(Implies(And(e >= 0, e < n), D <= dist(sub_(q, self.row(S(e))))))

        def D(j):
            facts(j)
            return Df(j)

        def W(j):
            facts(j)
            return Wf(j)
        return D, W


def ckdtree(rt, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("cKDTree with options")
    return Tree(rt, rt.np.asobj(a[0]) if not isinstance(a[0], SArr) else a[0])


def norm(rt, a, kw):
    """Lengths of displacements and of reciprocal vectors are opaque."""
    c = Ctx.cur
    g = c.data.get("geometry")
    if g is None:
        return NotImplemented
    axis = kw.get("axis", a[2] if len(a) > 2 else None)
    x = a[0]
    if len(a) > 1 and a[1] is not None or kw.get("ord") is not None:
        return NotImplemented

    def one(vec):
        L = g.linear(vec)
        if L is not None:
            r = g.distance(L)
            if r is not None:
                return S(r)
        for i in range(g.t):
            if all(valid(zr(u) == 2 * g.pi * w) for u, w in zip(vec, g.X[i])):
                return S(g.NB[i])
        e = g.name_of(z3.Sum([zr(u) * zr(u) for u in vec]))
        Ctx.cur.assume(e >= 0)
        return S(e)
    if isinstance(x, (SArr, np.ndarray)) and x.ndim == 1 and axis in (None, 0, -1):
        return one([sarr.as_sarr(rt, x).get((q,)) for q in range(conc(x.shape[0]))])
    if axis not in (1, -1):
        return NotImplemented
    n, row = rows(x)
    if n is None:
        return NotImplemented
    if isinstance(n, int):
        out = np.empty((n,), dtype=object)
        for i in range(n):
            out[i] = one(row(i))
        return out
    return SArr((n,), lambda j: one(row(j[0])), "r")


def extremum(name):
    def f(rt, a, kw):
        g = Ctx.cur.data.get("geometry")
        x = a[0]
        if g is None or not isinstance(x, SArr) or kw.get("initial") is not None:
            return NotImplemented
        axis = kw.get("axis", a[1] if len(a) > 1 else None)
        if x.ndim == 2 and isinstance(x.shape[1], int) and axis is not None and int(axis) % 2 == 0:
            rd = x.reader()
            out = np.empty((x.shape[1],), dtype=object)
            for q in range(x.shape[1]):
                out[q] = f(rt, [SArr(x.shape[:1], lambda j, q=q: rd((j[0], q)), "r")], {})
            return out
        if x.ndim != 1 or not Ctx.cur.prove_now(zi(x.shape[0]) == zi(g.n)):
            return NotImplemented
        M = z3.Real(Ctx.cur.name(name))
        for k in g.interest or [z3.IntVal(0)]:
            e = g.opaque(zr(x.get((S(k),))))
            Ctx.cur.assume(M >= e if name == "max" else M <= e)
            if name == "max":
                g.monotone(M, e)
        return S(M)
    return f


def nonzero(rt, a, kw):
    x = a[0]
    if not (isinstance(x, SArr) and x.ndim == 1 and x.kind == "b"):
        return NotImplemented
    return (matches(rt, x),)


def matches(rt, x):
    """Positions where x holds, ascending."""
    c, g = Ctx.cur, geometry()
    n, rd = zi(x.shape[0]), x.reader()
    mask = lambda k: formula(rd((S(k),)))
    N, pos, idx = z3.Int(c.name("matches")), z3.Function(c.name("match"), I, I), z3.Function(c.name("place"), I, I)
    c.assume(And(N >= 0, N <= n))
    p = [pos(z3.IntVal(q)) for q in (0, 1)]
    for q in (0, 1):
        c.assume(Implies(N > q, And(p[q] >= 0, p[q] < n, mask(p[q]))))
    c.assume(Implies(N > 1, p[0] < p[1]))
    for k in g.interest:
        c.assume(Implies(And(k >= 0, k < n, mask(k)), And(idx(k) >= 0, idx(k) < N, pos(idx(k)) == k)))

    def at(j):
        k = zi(j[0])
        Ctx.cur.assume(Implies(And(k >= 0, k < N), And(pos(k) >= 0, pos(k) < n, mask(pos(k)))))
        return S(pos(k))
    return SArr((S(N),), at, "i")


def opaque(g, e):
    e = z3.simplify(e)
    if z3.is_app(e) and (e.decl().eq(g.G) or any((not s.inside) and e.decl().eq(s.D) for s in g.sites)) or z3.is_const(e):
        return e
    return g.name_of(e)


def monotone(g, M, e):
    """M >= e times a non-negative number."""
    for b in g.NB:
        Ctx.cur.assume(Implies(M >= e, b * M >= b * e))


Geometry.opaque = opaque
Geometry.monotone = monotone
USES = {"scipy.pdist": pdist, "np.solve": solve, "itertools.product": product, "scipy.cKDTree": ckdtree, "np.norm": norm,
        "np.max": extremum("max"), "np.min": extremum("min"), "np.amax": extremum("max"), "np.amin": extremum("min"),
        "np.nonzero": nonzero, "np.flatnonzero": lambda rt, a, k: matches(rt, a[0])}
TRUST = ["scipy cKDTree.query returns a nearest row and its distance; np.nonzero lists the positions in order; np.max and np.min are extremal",
         "itertools.product lists every combination exactly once", "which vectors and points are rejected as duplicates (scipy pdist) is left open",
         "sites are exact: a site of the lattice is at distance 0, one off it at 1e-4 or more from every lattice site"]
