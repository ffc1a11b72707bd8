"""C13: decomposition and indexing of the sites of any lattice."""
from .base import *
from .lattice import *
from . import lattice as L
from pyvc.sym import _POWER


def lemmas(h, d, t):
    """What the geometry uses, proved here from the definitions of lengths and reciprocal vectors."""
    g = Geometry(h, d, t)
    V, X = g.V, g.X
    m = [z3.ToReal(h.int("m").e) for _ in range(t)]
    T = [z3.Sum([m[i] * zr(V[i, q]) for i in range(t)]) for q in range(d)]
    dual = [[z3.Sum([zr(V[i, q]) * X[j][q] for q in range(d)]) for j in range(t)] for i in range(t)]
    for j in range(t):
        # b_j . T = 2 pi sum_i m_i (a_i . x_j) = 2 pi m_j
        h.ensure("lemma: projection of a translation", z3.Sum([T[q] * X[j][q] for q in range(d)]) == z3.Sum([m[i] * dual[i][j] for i in range(t)]))
    u, v = [z3.Real("u%d" % q) for q in range(d)], [z3.Real("v%d" % q) for q in range(d)]
    uv, uu, vv = (z3.Sum([a * b for a, b in zip(x, y)]) for x, y in ((u, v), (u, u), (v, v)))
    lag = z3.Sum([(u[p] * v[q] - u[q] * v[p]) * (u[p] * v[q] - u[q] * v[p]) for p in range(d) for q in range(p)] + [z3.RealVal(0)])
    h.ensure("lemma: Lagrange identity", uu * vv == uv * uv + lag)
    a, b, x, y = z3.Reals("a b x y")
    h.ensure("lemma: square roots", Implies(And(a >= 0, b >= 0, a * a * (b * b) >= x * x), x <= a * b))
    h.ensure("lemma: products", Implies(And(a >= 0, x >= y), a * x >= a * y))


def contract(rt, f, args, kw):
    """Contract of decompose (proved by the decompose tasks)."""
    g = geometry()
    env = rt.bind_args(f, args, kw).vars
    v = [x for n, x in env.items() if n != "self"][0]
    vec = [sarr.as_sarr(rt, v).get((q,)) for q in range(g.d)]
    f = g.linear(vec)
    if f is None or len(f.pts) + len(f.sites) != 1 or (f.pts + f.sites)[0][0] != 1 or not all(z3.is_int_value(x) and x.as_long() == 0 for x in f.m):
        raise Unsupported("decompose of something else")
    w, u = np.empty((g.d,), dtype=object), np.empty((g.d,), dtype=object)
    s = f.sites[0][1] if f.sites else None
    if s is not None and not s.inside:
        raise PyRaise(RuntimeError("Failed to decompose"))
    for q in range(g.d):
        w[q] = S(g.P(s.k if s else f.pts[0][1], z3.IntVal(q)))
        u[q] = S(s.T[q]) if s else Fraction(0)
    return (w, u)


def build(h, d, t, precision=True):
    g = Geometry(h, d, t)
    g.V0 = g.V.copy()
    if precision and h.choose([False, True], "precision chosen by the user"):
        p = h.int("precision")
        h.requires(p.e >= 0)
        h.call(h.get(LAT, "set_float_point_precision"), p)
        g.eps = 1 / z3.ToReal(_POWER(z3.IntVal(10), p.e))
    o = h.outcome(h.get(LAT, "Lattice"), g.points, g.V)
    if o[0] == "raise":
        raise PathEnd()
    return g, o[1]


def tasks():
    out = []
    ALL = [LAT + ".Lattice." + f for f in ("decompose", "getIndex", "getSite", "in_cluster", "_guess_scope", "_searching")] + [LAT + ".set_float_point_precision"]

    def T(name, fn, functions, assumes=TRUST, uses={}, **kw):
        task = Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[LAT], assumes=assumes, uses={**USES, **uses}, budget=300, **kw)
        task.branch_ms = 1000
        out.append(task)

    SHAPES = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]

    def lem(h):
        d, t = h.choose(SHAPES, "dimensions")
        lemmas(h, d, t)
    T("lemmas: projections and Cauchy-Schwarz", lem, [], [])

    def prior(h, g, lat, f):
        """An earlier query (of the state a lattice keeps, queries only fill in the database of translations)."""
        p = h.choose(["none", "inside", "outside"] + (["inside, folded", "outside, folded"] if f == "getIndex" else []), "earlier query")
        if p == "none":
            return
        s = Site(g, p.startswith("inside"), "_before")
        h.outcome(h.attr(lat, f), s.vector(), **({"fold": True} if "folded" in p else {}))

    def stable(h, lat, g):
        P, V = h.attr(lat, "points"), h.attr(lat, "vectors")
        k = h.int("k")
        h.requires(And(k.e >= 0, k.e < zi(g.n)))
        ok = isinstance(P, SArr) and P.ndim == 2 and P.shape[1] == g.d
        h.ensure("the points are not changed by queries", And([eqz(P.get((k, q)), S(g.P(k.e, z3.IntVal(q)))) for q in range(g.d)]) if ok else z3.BoolVal(False))
        h.ensure("the vectors are not changed by queries", value_eq(h.rt, V, g.V0))

    def decompose(h, d, t):
        g, lat = build(h, d, t, d * t <= 2)
        prior(h, g, lat, "decompose")
        inside = h.choose([True, False], "site of the lattice")
        s = Site(g, inside)
        v = s.vector()
        keep = v.copy()
        o = h.outcome(h.attr(lat, "decompose"), v)
        if not inside:
            h.ensure_raises("sites outside the lattice are rejected", o, "RuntimeError")
        else:
            r = h.ensure_ok("sites of the lattice are accepted", o)
            if not (isinstance(r, tuple) and len(r) == 2 and all(np.ndim(x) == 1 and np.shape(x) == (d,) for x in r if isinstance(x, np.ndarray))):
                h.fail("a point and a translation")
                return
            p, w = [sarr.as_sarr(h.rt, x) for x in r]
            for q in range(d):
                h.ensure("the point of the cluster", eqz(p.get((q,)), S(g.P(s.k, z3.IntVal(q)))))
                h.ensure("the translation", eqz(w.get((q,)), S(s.T[q])))
                h.ensure("their sum is the site", eqz(add(p.get((q,)), w.get((q,))), S(s.s[q])))
        h.ensure("the site is not modified", value_eq(h.rt, v, keep))
        stable(h, lat, g)

    def index(h, d, t):
        g, lat = build(h, d, t)
        prior(h, g, lat, "getIndex")
        kind = h.choose(["inside", "outside", "point"], "site")
        if kind == "point":
            k = h.int("k")
            h.requires(And(k.e >= 0, k.e < zi(g.n)))
            g.interest.append(k.e)
            o = h.outcome(h.attr(lat, "getSite"), k)
            v = h.ensure_ok("getSite", o)
            if np.shape(v) != (d,):
                h.fail("getSite gives a point")
                return
            for q in range(d):
                h.ensure("getSite", eqz(v[q], S(g.P(k.e, z3.IntVal(q)))))
            if h.choose([False, True], "fold"):
                o = h.outcome(h.attr(lat, "in_cluster"), v)
                h.ensure("in_cluster accepts the points", formula(h.eq(h.ensure_ok("in_cluster", o), True)))
            else:
                o = h.outcome(h.attr(lat, "getIndex"), v)
                h.ensure("getIndex inverts getSite", eqz(h.ensure_ok("getIndex", o), k))
            return
        s = Site(g, kind == "inside")
        v = s.vector()
        what = h.choose(["fold", "unfold", "in_cluster"], "query")
        if what == "fold":
            o = h.outcome(h.attr(lat, "getIndex"), v, fold=True)
            if kind == "inside":
                h.ensure("the folded index", eqz(h.ensure_ok("folded indexing accepts sites of the lattice", o), S(s.k)))
            else:
                h.ensure("folded indexing rejects other sites", z3.BoolVal(o[0] == "raise" and o[1] in ("RuntimeError", "KeyError")))
        elif what == "unfold":
            o = h.outcome(h.attr(lat, "getIndex"), v)
            home = And([m == 0 for m in s.m]) if kind == "inside" else z3.BoolVal(False)
            if o[0] == "ok":
                h.ensure("only cluster points have an index", home)
                if kind == "inside":
                    h.ensure("the index of a cluster point", eqz(o[1], S(s.k)))
            else:
                h.ensure("KeyError for other sites", And(Not(home), z3.BoolVal(o[1] == "KeyError")))
        else:
            o = h.outcome(h.attr(lat, "in_cluster"), v)
            home = And([m == 0 for m in s.m]) if kind == "inside" else z3.BoolVal(False)
            h.ensure("in_cluster accepts exactly the cluster points", formula(h.ensure_ok("in_cluster", o)) == home if not isinstance(o[1], bool) else home == z3.BoolVal(o[1]))
        stable(h, lat, g)
    for d, t in SHAPES:
        T("decompose: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: decompose(h, d, t), ALL[:1] + ALL[4:] + [LAT + ".Lattice.__init__"])
        T("getIndex, getSite, in_cluster: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: index(h, d, t), ALL[1:4] + [LAT + ".Lattice.__init__"],
          uses={LAT + ".Lattice.decompose": contract})
    return out
