"""C14: neighbour distances and bonds of any lattice."""
from .base import *
from .c14models import *
from . import c13

DIST = ["scipy cdist gives the distances between rows; np.unique gives the different values in ascending order; np.rint is monotone and within 1/2",
        "distances are an opaque function of lattice coordinates; Cauchy-Schwarz for them follows from the lemmas"]
BOND = ["scipy cKDTree.query_pairs(r) gives every pair of rows i < j at distance at most r, once",
        "precondition: different distances of the lattice differ by more than the configured precision (two units after rounding)",
        "precondition: |b_i| < 2 pi 20000 (lattice planes further apart than half the precision)",
        "neighbor_distance is used by its contract: the levels enumerated in ascending order, starting with 0"]
TR = ["list(set) lists every element of a set once (in any order); a set has an element if and only if it was added and not discarded"]


def tasks():
    out = []

    def T(name, fn, functions, uses={}, invariants=None, assumes=TRUST + TR, **kw):
        task = Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[LAT], assumes=assumes, uses={**HOOKS, **uses}, budget=kw.pop("budget", 300), invariants=invariants, **kw)
        task.branch_ms = 1000
        out.append(task)

    def lattice(h, d, t):
        g = Geometry(h, d, t)
        g.V0 = g.V.copy()
        o = h.outcome(h.get(LAT, "Lattice"), g.points, g.V)
        if o[0] == "raise":
            raise PathEnd()
        return g, o[1]

    SHAPES = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)]

    def lem(h):
        d, t = h.choose(SHAPES, "dimensions")
        c13.lemmas(h, d, t)
    T("lemmas: projections and Cauchy-Schwarz", lem, [], assumes=[])

    # -- the sites considered ------------------------------------------------------------
    def factory_invariants(loop):
        out = []
        c = Ctx.cur
        for key, (o, snap) in loop.heap.items():
            if not isinstance(o, TSet):
                continue
            c0, sc = c.data["translation"], c.data["scope"]
            ranks = c.data.get("products", [])
            if not ranks:
                continue
            neg = [z3.simplify(-x) for x in c0]
            inside = lambda v: And([And(-sc <= x, x <= sc) for x in v])
            rank = lambda v: ranks[-1]([x for x in v])[0]
            lab = "%s, %s: " % (key, "one of two inverses" if c.data["half"] else "all")
            for nm, v, w in (("c", c0, neg), ("-c", neg, c0)):
                out.append((lab + "members are in the scope (%s)" % nm, lambda st, o=o, v=v: Implies(o.mem(v), inside(v))))
                out.append((lab + "members have been listed (%s)" % nm, lambda st, o=o, v=v: Implies(o.mem(v), rank(v) < zi(st.k))))
                out.append((lab + "what has been listed is there or its inverse is (%s)" % nm,
                            lambda st, o=o, v=v, w=w: Implies(And(inside(v), rank(v) < zi(st.k)), Or(o.mem(v), o.mem(w)))))
                out.append((lab + "what has been listed is there (%s)" % nm, lambda st, o=o, v=v: Implies(And(inside(v), rank(v) < zi(st.k)), o.mem(v))))
                home = And([x == 0 for x in v])
                out.append((lab + "the origin is left out (%s)" % nm, lambda st, o=o, v=v, home=home: Implies(home, Not(o.mem(v)))))
                out.append((lab + "what has been listed, but the origin, is there or its inverse is (%s)" % nm,
                            lambda st, o=o, v=v, w=w, home=home: Implies(And(inside(v), Not(home), rank(v) < zi(st.k)), Or(o.mem(v), o.mem(w)))))
                out.append((lab + "what has been listed, but the origin, is there (%s)" % nm,
                            lambda st, o=o, v=v, home=home: Implies(And(inside(v), Not(home), rank(v) < zi(st.k)), o.mem(v))))
            out.append((lab + "the origin is left out", lambda st, o=o: Not(o.mem([z3.IntVal(0)] * len(c0)))))
            out.append((lab + "one of two inverse translations", lambda st, o=o: Implies(And(o.mem(c0), o.mem(neg)), And([x == 0 for x in c0]))))
        return out

    def factory(h, d, t):
        c = h.c
        c0 = [h.int("c%d" % i).e for i in range(t)]
        sc = h.int("scope")
        h.requires(sc.e >= 0)
        c.data["translation"], c.data["scope"] = c0, sc.e
        g, lat = lattice(h, d, t)
        half = c.data["half"] = h.choose([True, False], "no_inversion")
        f = h.attr(lat, "_sites_factory")
        if half and h.choose([False, True], "default"):
            o = h.outcome(f, sc)
        else:
            o = h.outcome(f, scope=sc, no_inversion=half)
        r = h.ensure_ok("sites", o)
        if not (isinstance(r, SArr) and r.ndim == 2 and conc(r.shape[1]) == d):
            h.fail("a table of sites")
            return
        n, N = zi(g.n), zi(r.shape[0])
        inside = And([And(-sc.e <= x, x <= sc.e) for x in c0])
        is_c = lambda m: And([x == y for x, y in zip(m, c0)])
        is_neg = lambda m: And([x == -y for x, y in zip(m, c0)])
        k1, k2 = h.int("k1").e, h.int("k2").e
        h.requires(And(k1 >= 0, k1 < N, k2 >= 0, k2 < N))
        R1, R2 = row_form(g, r, k1), row_form(g, r, k2)
        if R1 is None or R2 is None:
            h.fail("every row is a point displaced by a translation")
            return
        (p1, m1), (p2, m2) = R1, R2
        h.ensure("every row is an image of a point of the cluster", And(p1 >= 0, p1 < n))
        h.ensure("by a translation in the scope", Implies(is_c(m1), inside))
        h.ensure("the cluster comes first", Implies(k1 < n, And([p1 == k1] + [x == 0 for x in m1])))
        h.ensure("only the first rows are the cluster", Implies(k1 >= n, Not(And([x == 0 for x in m1]))))
        h.ensure("at least the cluster", N >= n)
        e = h.int("e").e
        h.requires(And(e >= 0, e < n))

        def listed(v):
            """Row for point e displaced by v."""
            zero = And([x == 0 for x in v])
            cands = [e]
            for place in c.data.get("listings", []) + [lambda w, f=f: f(w)[0] for f in c.data.get("products", [])]:
                p = place(list(v))
                for join in c.data.get("joins", []):
                    for off in (0, 1):
                        cands.append(join(p + off, e))
            hits = []
            for k in cands:
                F = row_form(g, r, k)
                if F is not None:
                    hits.append(And([k >= 0, k < N, F[0] == e] + [x == y for x, y in zip(F[1], v)]))
            return Or(hits)
        neg = [-x for x in c0]
        if half:
            h.ensure("every pair of inverse translations is represented", Implies(inside, Or(listed(c0), listed(neg))))
            h.ensure("by one of them only", Implies(And(is_c(m1), is_neg(m2)), And([x == 0 for x in c0])))
        else:
            h.ensure("every translation in the scope is listed", Implies(inside, listed(c0)))
        h.ensure("for every point of the cluster", Implies(is_c(m1), listed(c0)))
        h.ensure("no site is listed twice", Implies(And(is_c(m1), is_c(m2), p1 == p2), k1 == k2))
    for d, t in SHAPES:
        T("sites considered: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: factory(h, d, t), [CLS + "._sites_factory", CLS + ".__init__"], invariants=factory_invariants)

    # -- how far translations reach -------------------------------------------------------
    def reach(h, d, t):
        g, lat = lattice(h, d, t)
        k, e = h.int("k").e, h.int("e").e
        n = zi(g.n)
        h.requires(And(k >= 0, k < n, e >= 0, e < n))
        g.interest += [k, e]
        m = [h.int("m%d" % i).e for i in range(t)]
        G = g.length(k, e, m)
        ref = h.real("distance")
        slack = h.choose([False, True], "rounded distance")
        bound = ref.e + z3.RealVal("1/20000") if slack else ref.e
        h.requires(G <= bound)
        o = h.outcome(h.attr(lat, "_guess_scope"), ref)
        s = h.ensure_ok("a scope", o)
        if not is_int(s):
            h.fail("the scope is an integer")
            return
        h.ensure("not negative", zi(s) >= 0)
        g.monotone(bound, G)
        if slack:
            h.requires(And([x < 20000 * 2 * g.pi for x in g.NB]))
        proj = lambda x, i: g.opaque(z3.Sum([g.P(x, z3.IntVal(q)) * (2 * g.pi * g.X[i][q]) for q in range(d)]))
        for i in range(t):
            # Cauchy-Schwarz (lemmas): |2 pi m_i + b_i . (P_k - P_e)| <= |b_i| |P_k - P_e + T|
            w = 2 * g.pi * z3.ToReal(m[i]) + proj(k, i) - proj(e, i)
            h.c.assume(And(w <= g.NB[i] * G, -w <= g.NB[i] * G))
        for i in range(t):
            h.ensure("pairs this close differ by a translation in the scope", And(-zi(s) <= m[i], m[i] <= zi(s)))
    for d, t in SHAPES:
        T("reach: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: reach(h, d, t), [CLS + "._guess_scope"], assumes=TRUST + DIST + BOND[2:3])

    # -- neighbour distances -----------------------------------------------------------------
    def invariant(A, assuming):
        """Class invariant of the table of distances: [(label, formula)]."""
        c, g = Ctx.cur, geometry()
        i, j = c.data["positions"]
        n = A.n
        out = [("a distance is known", n >= 1), ("the first is zero", A.at(z3.IntVal(0)) == 0)]
        if assuming and isinstance(A, AnyLevels):
            def known(what):
                setattr(A, what, True)
                return z3.BoolVal(True)
            out.append(("ascending", lambda: known("ascending")))
            out.append(("levels", lambda: known("genuine")))
        else:
            out.append(("ascending", Implies(And(i >= 0, i < j, j < n), A.at(i) < A.at(j))))
            out.append(("levels", Implies(And(i >= 0, i < n), c.data["level"](A.at(i)))))
        for k, e, m in c.data["pairs"]:
            lv = level_of(g, k, e, m)
            ok = And(k >= 0, k < zi(g.n), e >= 0, e < zi(g.n), z3.ToReal(lv) <= ZOOM * A.at(z3.simplify(n - 1)))
            hits = [And(p >= 0, p < n, ZOOM * A.at(p) == z3.ToReal(lv)) for p in A.locate(g, k, e, m) + [z3.simplify(n - 1)]]
            out.append(("no distance up to the last is missing", Implies(ok, Or(hits + [z3.BoolVal(False)]))))
        return out

    def table_of(v):
        if isinstance(v, Levels):
            return v
        if isinstance(v, (list, np.ndarray)) and np.ndim(v) == 1 and len(v) and all(is_num(x) for x in v):
            return Levels(z3.IntVal(len(v)), lambda j: pick_real(v, j), lambda g, k, e, m: [z3.IntVal(q) for q in range(len(v))])
        return None

    def pick_real(v, j):
        r = zr(v[-1])
        for q in range(len(v) - 2, -1, -1):
            r = z3.If(j == q, zr(v[q]), r)
        return r

    def setup(h, d, t):
        """Ghost pair and positions; what a level is."""
        c = h.c
        g, lat = lattice(h, d, t)
        lev = z3.Function(c.name("is_level"), R, B)
        c.data["level"] = lev
        k, e = h.int("k").e, h.int("e").e
        m = [h.int("m%d" % i).e for i in range(t)]
        h.requires(And(k >= 0, k < zi(g.n), e >= 0, e < zi(g.n)))
        zero = z3.IntVal(0)
        c.data["pairs"] = [(k, e, m), (zero, zero, [zero] * t)]
        c.data["positions"] = (h.int("i").e, h.int("j").e)
        plain = g.length

        def length(k, e, m):
            # definition of a level: the distance of some pair of lattice sites, to the configured precision
            r = plain(k, e, m)
            Ctx.cur.assume(Implies(And(k >= 0, k < zi(g.n), e >= 0, e < zi(g.n)), lev(z3.ToReal(rint_of(ZOOM * r)) / ZOOM)))
            return r
        g.length = length
        for k, e, m in c.data["pairs"]:
            g.length(k, e, m)
        return g, lat

    def distance_invariants(loop):
        out = []
        for key, (o, snap) in loop.heap.items():
            if table_of(snap) is None:
                continue
            labels = [l for l, f in invariant(table_of(snap), True)]
            for q, l in enumerate(labels):
                def fn(st, q=q, obj=o):
                    w = [table_of(x) for x in obj.attrs.values()]
                    w = [x for x in w if x is not None]
                    r = invariant(w[0], st.assuming)[q][1] if len(w) == 1 else z3.BoolVal(False)
                    return r() if callable(r) else r
                out.append(("%s %d: %s" % (key, q, l), fn))
        if "radius" in loop.entry:
            out.append(("the radius is not negative", lambda st: zr(st["radius"]) >= 0))
        return out

    def table(lat):
        w = [(n, table_of(x)) for n, x in lat.attrs.items() if table_of(x) is not None]
        if len(w) != 1:
            raise Unsupported("the table of distances is kept elsewhere")
        return w[0]

    def initial(h, d, t):
        g, lat = setup(h, d, t)
        name, A = table(lat)
        for l, f in invariant(A, False):
            h.ensure("initially: " + l, f)

    def distances(h, d, t):
        g, lat = setup(h, d, t)
        name, A = table(lat)
        A = any_levels("known")
        for l, f in invariant(A, True):
            h.requires(f() if callable(f) else f)
        lat.attrs[name] = A
        nth = h.int("nth")
        h.requires(nth.e >= 0)
        f = h.attr(lat, "neighbor_distance")
        o = h.outcome(f, nth=nth) if h.choose([False, True], "keyword") else h.outcome(f, nth)
        r = h.ensure_ok("a distance", o)
        name, A = table(lat)
        for l, f in invariant(A, False):
            h.ensure("afterwards: " + l, f)
        v = zr(r)
        h.ensure("a distance of the lattice", h.c.data["level"](v))
        h.ensure("the zeroth is zero", Implies(nth.e == 0, v == 0))
        h.ensure("as many smaller distances", And(nth.e < A.n, A.at(nth.e) == v))
        k, e, m = h.c.data["pairs"][0]
        lv = level_of(g, k, e, m)
        h.ensure("every smaller distance precedes it in the table",
                 Implies(z3.ToReal(lv) < ZOOM * v, Or([And(p >= 0, p < nth.e, ZOOM * A.at(p) == z3.ToReal(lv)) for p in A.locate(g, k, e, m) + [z3.simplify(A.n - 1)]])))
    MOD = {CLS + "._sites_factory": sites_contract, CLS + "._guess_scope": scope_contract}
    for d, t in SHAPES:
        T("known distances at first: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: initial(h, d, t), [CLS + ".__init__"], uses=MOD)
        T("neighbor_distance: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: distances(h, d, t), [CLS + ".neighbor_distance"], uses=MOD, invariants=distance_invariants, assumes=TRUST + DIST)

    # -- bonds -------------------------------------------------------------------------------
    def crossing(c, loop_sym):
        """Ghost iteration: its rows and their forms."""
        k = c.data["iteration"]
        a, b = [zi(x) for x in loop_sym.at(None, S(k))]
        site = c.data["sites"][-1]
        return k, a, b, site.form(a), site.form(b)

    def uniform(site, e1, e2, v):
        """A translation is listed for every point or for none (proved by "sites considered")."""
        (k1, l1), (k2, l2) = site.listed(e1, v), site.listed(e2, v)
        site.form(k1), site.form(k2)
        n = zi(geometry().n)
        Ctx.cur.assume(Implies(And(e1 >= 0, e1 < n, e2 >= 0, e2 < n), l1 == l2))

    def bond_invariants(loop):
        out = []
        c, g = Ctx.cur, geometry()
        fam = loop.sym if hasattr(loop.sym, "place") else None
        if fam is None or not c.data.get("sites"):
            return out
        k, a, b, (pa, ma), (pb, mb) = crossing(c, fam)
        n = zi(g.n)
        for q, (key, (o, snap)) in enumerate(loop.heap.items()):
            if not isinstance(o, Log):
                continue
            done = lambda st: And(k >= 0, k < zi(st.k))
            for nm, cond in (("inside", b < n), ("across", And(a < n, b >= n)), ("all", z3.BoolVal(True)), ("none", z3.BoolVal(False))):
                out.append(("list %d: one bond for every pair %s" % (q, nm), lambda st, o=o, cond=cond: o.count == z3.If(And(done(st), cond), 1, 0)))
            zero = [z3.IntVal(0)] * g.t
            for nm, want in (("as it is", [pa] + ma + [pb] + mb), ("folded", [pa] + ma + [pb] + zero)):
                out.append(("list %d: bonds %s (fold=%s)" % (q, nm, c.data["fold"]), lambda st, o=o, want=want: Implies(o.count == 1, And([x == y for x, y in zip(o.content, want)]))))
        return out

    def bonds(h, d, t):
        c = h.c
        c.data["iteration"] = z3.Int("iteration")
        g, lat = lattice(h, d, t)
        plain = g.length

        def length(k, e, m):
            r = plain(k, e, m)
            w = plain(e, k, [z3.simplify(-x) for x in m])
            Ctx.cur.assume(r == w)          # |v| = |-v|
            return r
        g.length = length
        n = zi(g.n)
        E = c.data["enumeration"] = Enumeration(g)
        # ghost pair: point k, and point e displaced by v
        k, e = h.int("k").e, h.int("e").e
        v = [h.int("v%d" % i).e for i in range(t)]
        h.requires(And(k >= 0, k < n, e >= 0, e < n))
        back = [z3.simplify(-x) for x in v]
        nth = h.int("nth")
        h.requires(nth.e >= 1)
        E.at(nth.e)
        E.at(nth.e - 1)
        only, fold = h.choose([True, False], "only"), h.choose([False, True], "fold")
        c.data["fold"] = fold
        kw = {} if only and not fold else dict(only=only, fold=fold)
        c.data["pairs"] = [(k, e, back)]
        c.data["slack"] = True
        o = h.outcome(h.attr(lat, "bonds"), nth, **kw)
        r = h.ensure_ok("bonds", o)
        if not (isinstance(r, tuple) and len(r) == 2):
            h.fail("two lists of bonds")
            return
        if not all(isinstance(x, Log) for x in r) or r[0] is r[1]:
            raise Unsupported("bonds listed in another way")
        intra, inter = r
        if not c.data.get("families") or not c.data.get("sites"):
            raise Unsupported("bonds found in another way")
        fam, site = c.data["families"][-1], c.data["sites"][-1]
        it, a, b, (pa, ma), (pb, mb) = crossing(c, fam)
        h.requires(And(it >= 0, it < fam.N))
        want = lambda G, lv: (lv == E.Q(nth.e)) if only else And(lv <= E.Q(nth.e), lv >= 1)
        # what an iteration contributes
        zero = [z3.IntVal(0)] * t
        inside, across = b < n, And(a < n, b >= n)
        h.ensure("pairs inside the cluster are listed once", intra.count == z3.If(inside, 1, 0))
        h.ensure("pairs across the boundary are listed once", inter.count == z3.If(across, 1, 0))
        for nm, lst, second in (("inside", intra, mb), ("across", inter, zero if fold else mb)):
            one, two = lst.content[:1 + t], lst.content[1 + t:]
            A, Bq = [pa] + ma, [pb] + second
            eq = lambda x, y: And([u == w for u, w in zip(x, y)])
            h.ensure("the bond joins the two sites (%s%s)" % (nm, ", folded" if fold and nm == "across" else ""),
                     Implies(lst.count == 1, Or(And(eq(one, A), eq(two, Bq)), And(eq(one, Bq), eq(two, A)))))
        # what it means: the pair (pa, pb, shift mb) is at the distance asked for
        G = g.length(pa, pb, [z3.simplify(-x) for x in mb])
        lv = E.level(pa, pb, [z3.simplify(-x) for x in mb])
        h.ensure("listed pairs have the distance", Implies(Or(inside, across), want(G, lv)))
        h.ensure("a pair inside the cluster has both sites in it", Implies(inside, And([x == 0 for x in ma + mb])))
        h.ensure("a pair across the boundary has one site in it", Implies(across, And(And([x == 0 for x in ma]), Not(And([x == 0 for x in mb])))))
        # every pair at the distance is found exactly once, in one direction
        g.length(k, e, back)
        lvg = E.level(k, e, back)
        same = And(k == e, *[x == 0 for x in v])
        hyp = And(want(None, lvg), Not(same))
        found = []
        for (x, y, s) in ((k, e, v), (e, k, back)):
            for row in [y, site(y, s)[0]]:
                site.form(row)
                for lo, hi in ((x, row), (row, x)):
                    p = fam.place(lo, hi)
                    a2, b2 = [zi(w) for w in fam.at(None, S(p))]
                    (p2, m2), (q2, w2) = site.form(a2), site.form(b2)
                    hit = And([p >= 0, p < fam.N, a2 < n])
                    direct = And([p2 == k, q2 == e] + [u == w for u, w in zip(w2, v)])
                    reverse = And([p2 == e, q2 == k] + [u == -w for u, w in zip(w2, v)])
                    found.append(And(hit, Or(direct, reverse)))
        uniform(site, k, e, v)
        uniform(site, k, e, back)
        h.ensure("every pair at the distance is listed", Implies(hyp, Or(found)))
        # never twice, nor in reverse
        j = h.int("other").e
        h.requires(And(j >= 0, j < fam.N))
        a2, b2 = [zi(w) for w in fam.at(None, S(j))]
        (p2, m2), (q2, w2) = site.form(a2), site.form(b2)
        for y, s in ((pb, mb), (pa, [z3.simplify(-x) for x in mb])):
            uniform(site, pa, pb, s)
            site(y, s)
        direct = And([p2 == pa, q2 == pb] + [u == w for u, w in zip(w2, mb)])
        reverse = And([p2 == pb, q2 == pa] + [u == -w for u, w in zip(w2, mb)])
        uniform(site, p2, q2, w2)
        site(q2, w2)
        h.ensure("no pair is listed twice", Implies(And(a < n, a2 < n, direct), it == j))
        h.ensure("nor its reverse", Implies(And(a < n, a2 < n, reverse), it == j))

    def onsite(h, d, t):
        g, lat = lattice(h, d, t)
        only, fold = h.choose([True, False], "only"), h.choose([False, True], "fold")
        r = h.ensure_ok("bonds", h.outcome(h.attr(lat, "bonds"), 0, only=only, fold=fold))
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SList)):
            h.fail("two lists of bonds")
            return
        h.ensure("nothing across the boundary", z3.BoolVal(r[1] is None or isinstance(r[1], (list, tuple)) and not r[1]))
        h.ensure("one for every point", zi(r[0].n) == zi(g.n))
        i = h.int("i")
        h.requires(And(i.e >= 0, i.e < zi(g.n)))
        b = r[0].at(h.rt, i)
        ok = isinstance(b, BondM)
        h.ensure("from the point to itself", And([And([p == i.e] + [x == 0 for x in m]) for p, m in b.forms]) if ok else z3.BoolVal(False))
    BUSES = {**MOD, CLS + ".neighbor_distance": distance_contract, CLS + ".decompose": decompose_contract, "new:HamiltonianPy.bond.Bond": bond, "scipy.cKDTree": tree,
             "new-set": lambda rt: Pairs(), "new-list": lambda rt: Log(geometry().t) if Ctx.cur.data.get("iteration") is not None else []}
    for d, t in SHAPES:
        T("bonds: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: bonds(h, d, t), [CLS + ".bonds"], uses=BUSES, invariants=bond_invariants, assumes=TRUST + DIST + BOND)
        T("bonds at no distance: %d vectors in %d dimensions" % (t, d), lambda h, d=d, t=t: onsite(h, d, t), [CLS + ".bonds"], uses=BUSES)
    return out
