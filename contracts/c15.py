"""C15: generated clusters, for any number of cells; exact evaluation of the special clusters."""
import itertools

from .base import *
from . import exact as X
from .exact import Ex, exact, matrix, dot, comb
from pyvc.sarr import SArr, conc, plus
from pyvc.seqs import SSeq, SIter, SRange, proto

LAT, DB = "HamiltonianPy.lattice.lattice", "HamiltonianPy.lattice._lattice_database"
I = z3.IntSort()
TRUST = ["itertools.product lists every combination exactly once", "the constructor of Lattice does not reject the generated points as duplicates (scipy pdist)",
         "pigeonhole: as many points as distinct required points, all of them present, means each once"]
EXACT = TRUST + ["database constants are evaluated exactly (field Q(sqrt 3)), not in floating point",
                 "counting: inequivalent points, as many as the cell volume holds, represent all classes"]
R3 = Ex({0: (Fraction(0), Fraction(1))})
E = Ex.of
CELLS = {"chain": ([[E(0)]], [[E(1)]]), "square": ([[E(0)] * 2], [[E(1), E(0)], [E(0), E(1)]]),
         "triangle": ([[E(0)] * 2], [[E(1), E(0)], [E(Fraction(1, 2)), R3 / 2]]),
         "honeycomb": ([[E(0), -1 * R3 / 6], [E(0), R3 / 6]], [[E(1), E(0)], [E(Fraction(1, 2)), R3 / 2]]),
         "kagome": ([[E(0), E(0)], [E(Fraction(1, 4)), R3 / 4], [E(Fraction(1, 2)), E(0)]], [[E(1), E(0)], [E(Fraction(1, 2)), R3 / 2]]),
         "cubic": ([[E(0)] * 3], [[E(1), E(0), E(0)], [E(0), E(1), E(0)], [E(0), E(0), E(1)]])}
SPECIAL = {"square_cross": ("square", 12, ["square_12", "cross"]), "square_z": ("square", 10, ["z"]), "square_s": ("square", 10, ["s"]),
           "triangle_star": ("triangle", 13, ["triangle_13", "star", "SD"]), "honeycomb_benzene": ("honeycomb", 6, ["honeycomb_6", "benzene"]),
           "honeycomb_diphenyl": ("honeycomb", 10, ["honeycomb_10", "diphenyl"]), "honeycomb_gear": ("honeycomb", 24, ["honeycomb_24", "gear"])}
ARRAYS = ["CHAIN_CELL", "SQUARE_CELL", "TRIANGLE_CELL", "HONEYCOMB_CELL", "KAGOME_CELL", "CUBIC_CELL", "SQUARE_CROSS", "SQUARE_Z", "SQUARE_S",
          "TRIANGLE_STAR", "HONEYCOMB_BENZENE", "HONEYCOMB_DIPHENYL", "HONEYCOMB_GEAR"]


def fractional(v, V):
    """Coefficients of v in the basis V (exact)."""
    n = len(V)
    return X.solve([[V[i][q] for i in range(n)] for q in range(n)], v)


def integral(xs):
    return all(x.integer() for x in xs)


def product(rt, a, rep):
    """Every combination exactly once: rank is the position of a combination."""
    c = Ctx.cur
    its = list(a) * (rep if isinstance(rep, int) else 0)
    ps = [proto(rt, x) or proto(rt, SSeq(len(rt.to_list(x)), lambda k, xs=rt.to_list(x): rt.seqs.pick(rt, list(xs), k), tuple)) for x in its]
    ns = [zi(p.length(rt)) for p in ps]
    n = ns[0]
    for m in ns[1:]:
        n = n * m
    # the order depends on the numbers of elements alone
    key = tuple(str(z3.simplify(m)) for m in ns)
    if key not in c.data.setdefault("orders", {}):
        c.data["orders"][key] = ([z3.Function(c.name("index%d" % q), I, I) for q in range(len(ps))], z3.Function(c.name("rank"), *([I] * (len(ps) + 1))))
    fs, rk = c.data["orders"][key]

    def at(k):
        e = zi(k)
        Ctx.cur.assume(Implies(And(e >= 0, e < n), And([And(f(e) >= 0, f(e) < m) for f, m in zip(fs, ns)] + [rk(*[f(e) for f in fs]) == e])))
        return tuple(p.at(rt, S(f(e))) for p, f in zip(ps, fs))

    def rank(*idx):
        r = rk(*idx)
        Ctx.cur.assume(Implies(And([And(i >= 0, i < m) for i, m in zip(idx, ns)]), And([r >= 0, r < n] + [f(r) == i for f, i in zip(fs, idx)])))
        return r
    c.data["rank"] = (rank, len(ps))
    return SIter(SSeq(S(n), at, tuple))


def pdist(rt, a, k):
    c = Ctx.cur
    n = fresh("i", "pairs")
    c.assume(n.e >= 0)
    f = z3.Function(c.name("distance"), I, z3.RealSort())

    def at(j):
        Ctx.cur.assume(f(zi(j[0])) >= 1)
        return S(f(zi(j[0])))
    q = z3.Int("q")
    c.assume(z3.ForAll([q], f(q) >= 1, patterns=[f(q)]))
    return SArr((n,), at, "r")


def tasks():
    out = []

    def T(name, fn, functions, assumes, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[DB, LAT], assumes=assumes, uses={"scipy.pdist": pdist, "itertools.product": product}, **kw))

    def no_sharing(h, lat):
        mine = [h.attr(lat, n) for n in ("points", "vectors", "bs")] + [v for v in lat.attrs.values()]
        db = [h.get(DB, n + "_" + s) for n in ARRAYS for s in ("POINTS", "AS", "BS")]
        bad = [1 for x in mine if isinstance(x, np.ndarray) for y in db if np.shares_memory(x, y)]
        h.ensure("no storage shared with the database", z3.BoolVal(not bad))

    def generator(h):
        c = h.c
        which = h.choose(list(CELLS), "lattice")
        pts, vec = CELLS[which]
        d, P = len(vec), len(pts)
        # the unit cell itself: its points are pairwise inequivalent (so the required points are distinct)
        for i, j in itertools.combinations(range(P), 2):
            h.ensure("distinct unit-cell points", z3.BoolVal(not integral(fractional([x - y for x, y in zip(pts[i], pts[j])], vec))))
        n = [h.int("n%d" % q) for q in range(3)]
        for x in n:
            h.requires(x.e >= 1)
        f = h.get(DB, "lattice_generator")
        if h.choose([False, True], "keywords"):
            o = h.outcome(f, which, num0=n[0], num1=n[1], num2=n[2])
        else:
            o = h.outcome(f, which, *n)
        lat = h.ensure_ok("a lattice", o)
        A, B = h.get(DB, which.upper() + "_CELL_AS"), h.get(DB, which.upper() + "_CELL_POINTS")
        h.ensure("the unit cell of this lattice", z3.BoolVal(matrix(A) == vec and matrix(B) == pts))
        V, Q = h.attr(lat, "vectors"), h.attr(lat, "points")
        if not (isinstance(V, np.ndarray) and V.shape == (d, d) and isinstance(Q, (SArr, np.ndarray)) and len(Q.shape) == 2 and Q.shape[1] == d):
            h.fail("shapes of points and vectors")
            return
        for i in range(d):
            for q in range(d):
                h.ensure_value("vector i is n_i a_i", V[i, q], mul(n[i], A[i, q]))
        total = z3.IntVal(P)
        for x in n[:d]:
            total = x.e * total
        h.ensure("as many points as cells times points per cell", zi(Q.shape[0]) == total)
        idx = [h.int("i%d" % q).e for q in range(d)]
        h.requires(And([And(i >= 0, i < x.e) for i, x in zip(idx, n)]))
        p = h.choose(list(range(P)), "point")
        want = [add(B[p, q], *[mul(S(i), A[a, q]) for a, i in enumerate(idx)]) for q in range(d)]
        if isinstance(Q, np.ndarray):
            rows = [[Q[r, q] for q in range(d)] for r in range(Q.shape[0])]
            h.ensure("every required point is there", Or([And([eqz(x, y) for x, y in zip(r, want)]) for r in rows] + [z3.BoolVal(False)]))
        else:
            if "rank" not in c.data or c.data["rank"][1] != d:
                raise Unsupported("cells listed in another way")
            r = c.data["rank"][0](*idx)
            hits = []
            for s in range(P):
                k = r * P + s
                c.assume(And((k / P) == r, k % P == s))
                hits.append(And([k >= 0, k < zi(Q.shape[0])] + [eqz(Q.get((S(k), q)), want[q]) for q in range(d)]))
            h.ensure("every required point is there", Or(hits))
        no_sharing(h, lat)
    T("lattice_generator: any number of cells", generator, [DB + ".lattice_generator", LAT + ".Lattice.__init__"], TRUST)

    def unknown(h):
        fn = h.choose(["lattice_generator", "special_cluster"], "function")
        f = h.get(DB, fn)
        bad = h.choose(["foo", "", "Square", "STAR", None, 3, "chain_cell"], "name")
        h.ensure_raises("unknown names raise KeyError", h.outcome(f, bad), "KeyError")
        if fn == "lattice_generator":
            h.ensure_raises("special clusters are not generated", h.outcome(f, "star"), "KeyError")
        else:
            h.ensure_raises("common lattices are not special", h.outcome(f, "square"), "KeyError")
    T("unknown names", unknown, [DB + ".lattice_generator", DB + ".special_cluster"], TRUST)

    def special(h):
        which = h.choose(list(SPECIAL), "cluster")
        cell, count, aliases = SPECIAL[which]
        name = h.choose([which] + aliases, "name")
        ok = lambda label, v: h.ensure("%s: %s" % (name, label), z3.BoolVal(bool(v)))
        lat = h.ensure_ok("a lattice", h.outcome(h.get(DB, "special_cluster"), name))
        P, V = matrix(h.attr(lat, "points")), matrix(h.attr(lat, "vectors"))
        pts, vec = CELLS[cell]
        ok("the points of the named cluster", P == matrix(h.get(DB, which.upper() + "_POINTS")) and V == matrix(h.get(DB, which.upper() + "_AS")))
        ok("translations of the parent lattice", len(V) == len(vec) and all(integral(fractional(v, vec)) for v in V))
        ratio = X.det(V) / X.det(vec)
        r = ratio.rational()
        ok("as many points as sites of the parent lattice in the cell", r is not None and abs(r) * len(pts) == len(P) == count)
        # up to a rigid translation
        fits = []
        for s in range(len(pts)):
            off = [x - y for x, y in zip(P[0], pts[s])]
            fits.append(all(any(integral(fractional([x - o - y for x, o, y in zip(p, off, q)], vec)) for q in pts) for p in P))
        ok("every point is a site of the parent lattice", any(fits))
        ok("pairwise inequivalent points", all(not integral(fractional([x - y for x, y in zip(P[i], P[j])], V)) for i, j in itertools.combinations(range(len(P)), 2)))
        no_sharing(h, lat)
    T("special clusters tile the parent lattice", special, [DB + ".special_cluster", LAT + ".Lattice.__init__"], EXACT)
    return out
