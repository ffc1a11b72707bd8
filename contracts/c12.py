"""C12: reciprocal vectors of any lattice; exact evaluation of the database's zone points."""
import itertools
from math import floor, sqrt

from .base import *
from . import exact as X
from .exact import Ex, exact, matrix, dot, comb, PI
from pyvc.sarr import SArr

LAT, DB, PKG = "HamiltonianPy.lattice.lattice", "HamiltonianPy.lattice._lattice_database", "HamiltonianPy.lattice"
TRUST = ["np.linalg.solve/inv give the exact solution or raise for a singular matrix", "which points and vectors are rejected as duplicates (scipy pdist) is left open",
         "a reciprocal vector longer than 2|k| is never nearer to k than the origin (triangle inequality)"]
EXACT = TRUST + ["database constants are evaluated exactly (field Q(sqrt 3)[pi]), not in floating point"]
CLUSTERS = {"CHAIN_CELL": "chain", "SQUARE_CELL": "square", "TRIANGLE_CELL": "triangle", "HONEYCOMB_CELL": "honeycomb", "KAGOME_CELL": "kagome",
            "CUBIC_CELL": "cubic", "SQUARE_CROSS": "square_cross", "SQUARE_Z": "square_z", "SQUARE_S": "square_s", "TRIANGLE_STAR": "triangle_star",
            "HONEYCOMB_BENZENE": "honeycomb_benzene", "HONEYCOMB_DIPHENYL": "honeycomb_diphenyl", "HONEYCOMB_GEAR": "honeycomb_gear"}
CORNERS = {"SQUARE_CELL": "MS", "SQUARE_Z": "MS", "SQUARE_S": "MS", "TRIANGLE_CELL": "KS", "HONEYCOMB_CELL": "KS", "KAGOME_CELL": "KS",
           "CUBIC_CELL": "KS", "TRIANGLE_STAR": "KS", "HONEYCOMB_BENZENE": "KS", "HONEYCOMB_GEAR": "KS"}
LISTS = {"CHAIN_CELL": ["ES"], "SQUARE_CELL": ["XS", "MS"], "TRIANGLE_CELL": ["MS", "KS"], "HONEYCOMB_CELL": ["MS", "KS"], "KAGOME_CELL": ["MS", "KS"],
         "CUBIC_CELL": ["XS", "MS", "KS"], "SQUARE_Z": ["XS", "MS"], "SQUARE_S": ["XS", "MS"], "TRIANGLE_STAR": ["MS", "KS"],
         "HONEYCOMB_BENZENE": ["MS", "KS"], "HONEYCOMB_GEAR": ["MS", "KS"]}


class Zone:
    """The first Brillouin zone, exactly."""

    def __init__(self, A, B):
        self.A, self.B, self.d = A, B, len(B)
        self.near = {}

    def box(self, k):
        """All integer combinations that can be as near to k as the origin is."""
        r = sqrt(max(float(dot(k, k)), 0.0))
        ms = []
        for a in self.A:
            # |m_i| <= |a_i||G|/(2 pi) and |G| <= 2|k|; the bound is confirmed exactly
            M = floor(2 * r * sqrt(float(dot(a, a))) / 6.283185307179586 + 1e-9)
            lim = Ex.of((M + 1) ** 2) * PI * PI
            assert dot(a, a) * dot(k, k) < lim
            ms.append(range(-M, M + 1))
        return itertools.product(*ms)

    def nearest(self, k):
        """(number of reciprocal vectors nearest to k if the origin is one of them, else 0)."""
        key = tuple(k)
        if key not in self.near:
            n = 0
            for m in self.box(k):
                G = comb(m, self.B)
                s = (dot(G, G) - dot(k, G) * 2).sign()
                if s < 0:
                    n = 0
                    break
                n += s == 0
            self.near[key] = n
        return self.near[key]

    def facets(self):
        """Half of every facet-defining reciprocal vector (exactly two nearest vectors at its middle)."""
        if not hasattr(self, "_facets"):
            # a facet vector is at most twice the covering radius long, which is at most half the sum of the |b_i|
            R = max(float(dot(b, b)) for b in self.B) ** 0.5 * self.d
            ms = [range(-n, n + 1) for n in (floor(R * sqrt(float(dot(a, a))) / 6.283185307179586) + 1 for a in self.A)]
            self._facets = []
            for m in itertools.product(*ms):
                if any(m):
                    h = [x / 2 for x in comb(m, self.B)]
                    if self.nearest(h) == 2:
                        self._facets.append(h)
        return self._facets

    def corners(self):
        if not hasattr(self, "_corners"):
            out = []
            for c in itertools.combinations(self.facets(), self.d):
                M = [list(h) for h in c]
                if not X.det(M).t:
                    continue
                v = X.solve(M, [dot(h, h) for h in c])
                if v not in out and self.nearest(v) > 0:
                    out.append(v)
            self._corners = out
        return self._corners

    def edges(self):
        out = []
        for a, b in itertools.combinations(self.corners(), 2):
            m = [(x + y) / 2 for x, y in zip(a, b)]
            if m not in self.corners() and self.nearest(m) >= self.d + 1 and m not in out:
                out.append(m)
        return out


def tasks():
    out = []

    def T(name, fn, functions, modules, assumes, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=modules, assumes=assumes, **kw))

    def pdist(rt, a, k):
        """Any distances: which vectors or points are rejected as duplicates is not decided here."""
        c = Ctx.cur
        n = fresh("i", "pairs")
        c.assume(n.e >= 0)
        f = z3.Function(c.name("distance"), z3.IntSort(), z3.RealSort())
        return SArr((n,), lambda j: S(f(zi(j[0]))), "r")

    def dual(h):
        c = h.c
        d = h.choose([1, 2, 3], "dimension")
        t = h.choose(list(range(1, d + 1)), "vectors")
        V = h.mat(t, d, "a")
        n = h.int("n")
        h.requires(n.e >= 1)
        P = z3.Function("point", z3.IntSort(), z3.IntSort(), z3.RealSort())
        pts = SArr((n, d), lambda j: S(P(zi(j[0]), zi(j[1]))), "r")
        # linear independence: some minor does not vanish
        minors = []
        for cols in itertools.combinations(range(d), t):
            M = [[V[i, q] for q in cols] for i in range(t)]
            minors.append(sdet(M))
        h.requires(Or([Not(eqz(m, 0)) for m in minors]))
        lemma = gram_lemma(h, V, minors)
        keep = V.copy()
        o = h.outcome(h.get(LAT, "Lattice"), pts, V, **h.choose([{}, {"name": "x"}], "name"))
        if o[0] == "raise":
            h.ensure("only duplicate points or vectors are rejected", z3.BoolVal(o[1] == "ValueError"))
            return
        lat = o[1]
        bs = h.attr(lat, "bs")
        if not (isinstance(bs, np.ndarray) and bs.shape == (t, d)):
            h.fail("as many reciprocal vectors as translation vectors")
            return
        pi2 = mul(2, S(z3.Real("pi")))
        for i in range(t):
            for j in range(t):
                p = add(*[mul(V[i, q], bs[j, q]) for q in range(d)])
                h.ensure_value("a_i . b_j = 2 pi delta_ij", p, pi2 if i == j else 0)
        # in the span of the translation vectors: b . w = 0 for all w orthogonal to them
        w = h.vec(d, "w")
        if t < d:
            for i in range(t):
                h.requires(eqz(add(*[mul(V[i, q], w[q]) for q in range(d)]), 0))
            for j in range(t):
                h.ensure_value("in the span of the translation vectors", add(*[mul(bs[j, q], w[q]) for q in range(d)]), 0)
        h.ensure("the vectors are not modified", value_eq(h.rt, V, keep))
        h.ensure_value("vectors", h.attr(lat, "vectors"), keep)

    def sdet(M):
        if len(M) == 1:
            return M[0][0]
        r = 0
        for j in range(len(M)):
            r = add(r, mul(-1 if j % 2 else 1, M[0][j], sdet([row[:j] + row[j + 1:] for row in M[1:]])))
        return r

    def gram_lemma(h, V, minors):
        """Cauchy-Binet: the Gram determinant is the sum of the squares of the minors (proved, then used)."""
        t, d = V.shape
        G = [[add(*[mul(V[i, q], V[j, q]) for q in range(d)]) for j in range(t)] for i in range(t)]
        g = sdet(G)
        f = eqz(g, add(*[sq(m) for m in minors]))
        h.ensure("lemma: Gram determinant (Cauchy-Binet)", f)
        h.c.assume(f)
        f = Not(eqz(g, 0))
        h.ensure("lemma: the Gram determinant of independent vectors does not vanish", f)
        h.c.assume(f)
    T("Lattice: reciprocal vectors of independent translation vectors", dual, [LAT + ".Lattice.__init__", LAT + ".Lattice.bs"], [LAT], TRUST, uses={"scipy.pdist": pdist})

    def database(h):
        which = h.choose(list(CLUSTERS), "cluster")
        g = lambda n: h.get(DB, which + "_" + n)
        As, Bs, pts, gamma = g("AS"), g("BS"), g("POINTS"), g("GAMMA")
        A, B = matrix(As), matrix(Bs)
        d = len(A)
        ok = lambda label, v: h.ensure("%s: %s" % (which, label), z3.BoolVal(bool(v)))
        ok("square arrays", np.shape(As) == (d, d) and np.shape(Bs) == (d, d) and np.shape(gamma) == (d,))
        for i in range(d):
            for j in range(d):
                ok("a_i . b_j = 2 pi delta_ij", dot(A[i], B[j]) == (PI * 2 if i == j else 0))
        ok("gamma is the origin", all(x == 0 for x in matrix(gamma)))
        f = h.get(DB, "special_cluster" if CLUSTERS[which] in ("square_cross", "square_z", "square_s", "triangle_star", "honeycomb_benzene", "honeycomb_diphenyl", "honeycomb_gear") else "lattice_generator")
        lat = h.call(f, CLUSTERS[which])
        ok("the cluster has these vectors", matrix(h.attr(lat, "vectors")) == A and matrix(h.attr(lat, "points")) == matrix(pts))
        ok("the cluster has these reciprocal vectors", matrix(h.attr(lat, "bs")) == B)
    T("database: reciprocal vectors agree with the clusters", database, [DB + "._BSCalculator", DB + ".special_cluster", DB + ".lattice_generator", LAT + ".Lattice.__init__"], [DB, LAT], EXACT)

    def points(h):
        which = h.choose(list(LISTS), "cluster")
        A, B = matrix(h.get(DB, which + "_AS")), matrix(h.get(DB, which + "_BS"))
        d = len(A)
        Z = Zone(A, B)
        for s in LISTS[which]:
            arr = h.get(DB, which + "_" + s)
            ok = lambda label, v: h.ensure("%s_%s: %s" % (which, s, label), z3.BoolVal(bool(v)))
            ok("a list of vectors", np.ndim(arr) == 2 and np.shape(arr)[1] == d)
            K = matrix(arr)
            corner = CORNERS.get(which) == s
            for k in K:
                n = Z.nearest(k)
                ok("on the boundary of the first Brillouin zone", n >= 2)
                if corner:
                    ok("a corner", n >= d + 1)
            ok("no duplicates", all(K[i] != K[j] for i in range(len(K)) for j in range(i)))
            want = Z.corners() if corner else Z.edges() if (d == 3 and s == "MS") else Z.facets()
            ok("complete", len(want) == len(K) and all(w in K for w in want))
            ok("exported", matrix(h.get(PKG, which + "_" + s)) == K)
    T("database: points of the Brillouin zones", points, [DB + "._BSCalculator"], [DB], EXACT)
    return out
