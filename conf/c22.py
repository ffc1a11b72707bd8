"""C22: isolation of public objects."""
import numpy as np
from conf.harness import sections
import HamiltonianPy as hp
from HamiltonianPy import lattice as L
from HamiltonianPy import quantumoperator as Q
from HamiltonianPy.bond import Bond
from HamiltonianPy.line2d import Line2D
from HamiltonianPy.hilbertspace import HilbertSpace, SimpleHilbertSpace
from HamiltonianPy.lattice import _lattice_database as DB


def poly():
    from HamiltonianPy.polygon import Polygon
    return Polygon


def freeze(x):
    """A comparable deep snapshot of a value."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, tuple(np.asarray(x).ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(freeze(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return ("s", frozenset(freeze(i) for i in x))
    if isinstance(x, dict):
        return ("d", tuple(sorted(((repr(k), freeze(v)) for k, v in x.items()))))
    if isinstance(x, Bond):
        return ("B", freeze(x.endpoints), x.directional)
    if hasattr(x, "tocsr"):
        return freeze(x.toarray())
    return x


def scribble(x, depth=0):
    """Destroy every mutable part of a value."""
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 77
    elif isinstance(x, list):
        for i in x:
            scribble(i, depth + 1)
        if x:
            x[0] = x[-1]
            x.append(None)
    elif isinstance(x, tuple):
        for i in x:
            scribble(i, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, depth + 1)
    elif isinstance(x, set):
        x.clear()
    elif hasattr(x, "tocsr") and hasattr(x, "data"):
        if x.data.size:
            x.data[...] = 77


def constants():
    out = {}
    for mod in (DB, Q, hp.rotation3d if hasattr(hp, "rotation3d") else None):
        if mod is None:
            continue
        for n in dir(mod):
            if n.isupper():
                v = getattr(mod, n)
                if isinstance(v, (np.ndarray, dict, tuple)):
                    out[(mod.__name__, n)] = freeze(v)
    return out


def exercise(rep, tag, make, args, observe, queries):
    """make(*args) -> object; observe(obj) -> snapshot; queries: callables returning public values."""
    before = constants()
    a1 = args()
    try:
        obj = make(*a1)
    except Exception as e:
        rep.fail(tag + "/construct", "%s: %s" % (type(e).__name__, e), args=a1)
        return
    ref = freeze(a1)
    rep.case((tag, repr(ref)))
    s0 = observe(obj)
    fresh = observe(make(*args()))
    rep.expect(s0 == fresh, tag + "/deterministic", "two equal constructions differ", args=ref)
    rep.expect(freeze(a1) == ref, tag + "/arguments-changed", "constructor or query modified its arguments", args=ref)
    scribble(list(a1))
    rep.expect(observe(obj) == s0, tag + "/argument-aliased", "modifying a constructor argument changes the object", args=ref)
    for name, q in queries:
        v = q(obj)
        first = freeze(v)
        rep.expect(observe(obj) == s0, tag + "/query/" + name, "query changed the object", args=ref)
        scribble(v)
        rep.expect(observe(obj) == s0, tag + "/returned/" + name, "modifying the returned value changes the object", args=ref)
        twin = make(*args())
        rep.expect(freeze(q(twin)) == first, tag + "/asked-first/" + name, "a query answers differently on an object just built", args=ref)
        rep.expect(observe(twin) == s0, tag + "/observed-after/" + name, "an object just built and asked this first reports differently", args=ref)
        again = freeze(q(obj))
        rep.expect(again == first, tag + "/again/" + name, "%r then %r" % (first, again), args=ref)
    rep.expect(observe(make(*args())) == s0, tag + "/later-object", "an object built afterwards differs", args=ref)
    after = constants()
    for k in before:
        rep.expect(before[k] == after.get(k), tag + "/constant", "module constant %s.%s changed" % k, args=ref)


def bonds_key(bs):
    intra, inter = bs
    f = lambda l: None if l is None else sorted((freeze(b) for b in l), key=repr)
    return (f(intra), f(inter))


def lattice_obs(obj):
    out = [freeze(obj.points), freeze(obj.vectors), freeze(obj.bs), obj.point_num, obj.space_dim, obj.trans_dim, obj.name, str(obj)]
    out.append(tuple(freeze(obj.getSite(i)) for i in range(obj.point_num)))
    out.append(tuple(round(float(obj.neighbor_distance(n)), 3) for n in range(3)))
    P, V = obj.points, obj.vectors
    out.append(tuple(int(obj.getIndex(p + V.sum(axis=0), fold=True)) for p in P))
    out.append(tuple(int(obj.getIndex(p)) for p in P))
    d = [obj.decompose(p - V[0]) for p in P]
    out.append(tuple(freeze(np.round(np.concatenate(x), 6) + 0.0) for x in d))
    out.append(tuple(bonds_key(obj.bonds(n, fold=f)) for n in (0, 1) for f in (False, True)))
    return repr(out)


LQ = [("points", lambda o: o.points), ("vectors", lambda o: o.vectors), ("bs", lambda o: o.bs),
      ("getSite", lambda o: [o.getSite(i) for i in range(o.point_num)]),
      ("decompose-near", lambda o: [o.decompose(p + o.vectors[0]) for p in o.points]),
      ("decompose-in", lambda o: [o.decompose(p) for p in o.points]),
      ("decompose-far", lambda o: [o.decompose(o.getSite(0) + 5 * o.vectors.sum(axis=0))]),
      ("endpoints", lambda o: [b.endpoints for g in o.bonds(1) if g for b in g]),
      ("endpoints-fold", lambda o: [b.endpoints for g in o.bonds(1, fold=True) if g for b in g]),
      ("endpoints-0", lambda o: [b.endpoints for b in o.bonds(0)[0]])]


def scrib_query(q):
    """the argument of a query belongs to the caller, too"""
    def f(o):
        s = o.getSite(o.point_num - 1) + o.vectors[-1]
        r = q(o, s)
        keep = freeze(r)
        s += 1000
        return r if freeze(r) == keep else "aliased"
    return f


def lattices(rep):
    rng = rep.rng
    names = ["chain", "square", "triangle", "honeycomb", "kagome", "cubic", "square_cross", "cross", "z", "star", "benzene"]
    for r in rep.rounds(25):
        d = rng.randint(1, 3)
        n = rng.randint(1, 3)
        P = [[round(rng.uniform(0, 0.9), 3) + (i if k == 0 else 0) for k in range(d)] for i in range(n)]
        V = [[0.0] * d for _ in range(rng.randint(1, d))]
        for i in range(len(V)):
            V[i][i] = 1.0 * (n if i == 0 else 1) + 0.5
        args = lambda: (np.array(P), np.array(V), "x")
        exercise(rep, "Lattice", L.Lattice, args, lattice_obs, LQ + [("decompose-arg", scrib_query(lambda o, s: o.decompose(s)))])
    for which in names:
        if which in ("chain", "square", "triangle", "honeycomb", "kagome", "cubic"):
            num = (2, 1, 1)
            exercise(rep, "lattice_generator", lambda *a: L.lattice_generator(which, *a), lambda: num, lattice_obs, LQ)
            exercise(rep, "lattice_generator", lambda *a: L.lattice_generator(which, *a), lambda: (1, 1, 1), lattice_obs, LQ)
        else:
            exercise(rep, "special_cluster", L.special_cluster, lambda: (which,), lattice_obs, LQ)
    for r in rep.rounds(20):
        k = rng.randint(2, 4)
        pts = [[rng.uniform(-1, 1) for _ in range(2)] for _ in range(k)]
        a = [np.array(p) for p in pts]
        keep = freeze(a)
        loop = rng.random() < 0.5
        p1, i1 = L.KPath(a, min_num=5, loop=loop)
        rep.case(("KPath", keep))
        rep.expect(freeze(a) == keep, "KPath/arguments-changed", "", a=keep)
        f1 = freeze((p1, list(i1)))
        scribble(a)
        rep.expect(freeze((p1, list(i1))) == f1, "KPath/aliased", "result follows the anchors", a=keep)
        b = [np.array(p) for p in pts]
        p2, i2 = L.KPath(b, min_num=5, loop=loop)
        scribble(p2)
        rep.expect(freeze(b) == keep, "KPath/returned-aliased", "anchors follow the result", a=keep)


def bonds(rep):
    rng = rep.rng
    other = Bond([9.0, 9.0], [8.0, 8.0])

    def obs(o):
        out = [freeze(o.endpoints), o.directional, float(o.getLength()), str(o), repr(o), hash(o), o == o]
        if o.directional:
            out += [freeze(o.getDisplace()), freeze(o.getAzimuth()), freeze(o.flip()), hash(o.flip()), o.oppositeTo(o.flip())]
        return repr(out)
    Q1 = [("endpoints", lambda o: o.endpoints), ("getLength", lambda o: o.getLength(3)),
          ("eq", lambda o: o == Bond(*o.endpoints, directional=o.directional))]
    Q2 = Q1 + [("getDisplace", lambda o: o.getDisplace()), ("getDisplace-n", lambda o: o.getDisplace(2)),
               ("getAzimuth", lambda o: o.getAzimuth()), ("getAzimuth-r", lambda o: o.getAzimuth(radian=True)),
               ("flip", lambda o: o.flip().endpoints), ("opposite", lambda o: o.oppositeTo(Bond(*o.endpoints)))]
    for r in rep.rounds(150):
        d = rng.randint(1, 3)
        kind = rng.choice([float, float, int])
        p, q = ([kind(rng.randint(-50, 50)) / (1 if kind is int else 7) for _ in range(d)] for _ in range(2))
        dirn = rng.random() < 0.7
        mk = rng.choice([np.array, np.array, list, tuple])
        exercise(rep, "Bond", lambda a, b: Bond(a, b, directional=dirn), lambda: (mk(p), mk(q)), obs, Q2 if dirn else Q1)
        if rng.random() < 0.3:
            same = np.array(p, dtype=float)
            exercise(rep, "Bond-same", lambda a: Bond(a, a, directional=dirn), lambda: (np.array(p),), obs, Q2 if dirn else Q1)


def shapes(rep):
    rng = rep.rng
    Polygon = poly()

    def lobs(o):
        out = [repr(o), str(o), o.IsHorizontal, o.IsVertical, freeze(o.PointsFactory([0.0, 0.3, 2.0])), freeze(o.PointsFactory())]
        for w in "xy":
            try:
                out.append(freeze(o.Coordinate(0.7, w)))
            except RuntimeError:
                out.append("R")
        out += [str(o.LocationRelation(p)) for p in ((0, 0), (1, 2), (-3, 0.5))]
        return repr(out)
    LQs = [("PointsFactory", lambda o: o.PointsFactory()), ("PointsFactory-r", lambda o: o.PointsFactory(np.array([0.0, 1.0]))),
           ("PointsFactory-0", lambda o: o.PointsFactory(np.array([0.0]))),
           ("Location", lambda o: str(o.LocationRelation(np.array([1.0, 1.0]))))]

    def pobs(o):
        V = o.vertices
        ref = V.mean(axis=0)
        out = [freeze(V), o.vertices_num] + [str(o.LocationRelation(p, ref)) for p in (ref, V[0], (V[0] + V[1]) / 2, V[0] * 3 - ref * 2)]
        return repr(out)
    PQ = [("vertices", lambda o: o.vertices), ("Location", lambda o: str(o.LocationRelation(np.array([5.0, 1.0]), o.vertices.mean(axis=0))))]
    for r in rep.rounds(100):
        p, q = ([rng.choice([0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(2)] for _ in range(2))
        if max(abs(p[0] - q[0]), abs(p[1] - q[1])) < 0.01:
            continue
        mk = rng.choice([np.array, list, tuple])
        exercise(rep, "Line2D", Line2D, lambda: (mk(p), mk(q)), lobs, LQs)
        n = rng.randint(3, 6)
        V = [[round(2 * np.cos(2 * np.pi * i / n + 0.1), 3), round(np.sin(2 * np.pi * i / n + 0.1), 3)] for i in range(n)]
        mk = rng.choice([np.array, lambda v: [list(x) for x in v]])
        exercise(rep, "Polygon", Polygon, lambda: (mk(V),), pobs, PQ)
        pt, rf = np.array([0.3, 0.2]), np.array([0.0, 0.0])
        Polygon(V).LocationRelation(pt, rf)
        rep.expect(freeze(pt) == freeze(np.array([0.3, 0.2])) and freeze(rf) == freeze(np.array([0.0, 0.0])), "Polygon/arguments-changed", "")


def quantum(rep):
    rng = rep.rng

    def sobs(o):
        return repr([repr(o), hash(o), freeze(o.site), o.coordinate, o == o, o < o])
    SQ = [("site", lambda o: o.site), ("coordinate", lambda o: o.coordinate), ("derive", lambda o: o.derive().site if hasattr(o, "derive") else None)]

    def spobs(o):
        return repr([sobs(o), freeze(o.matrix()), o.otype, [(str(t), t.coeff) for t in o.Schwinger()], freeze(o.matrix_function((1, o.otype), 2)), freeze(Q.SPIN_MATRICES), freeze(o.dagger().matrix())])
    SPQ = SQ + [("matrix", lambda o: o.matrix()), ("Schwinger", lambda o: [t.components for t in o.Schwinger()]),
                ("matrix_function", lambda o: o.matrix_function((0, o.otype), 1)), ("dagger-matrix", lambda o: o.dagger().matrix()),
                ("derive-matrix", lambda o: o.derive().matrix()), ("site_id", lambda o: o.site_id.site), ("matrix_function2", lambda o: o.matrix_function((0, o.otype), 3)),
                ("two", lambda o: Q.SpinInteraction.matrix_function([(0, o.otype), (1, "x")], 2)),
                ("two1", lambda o: Q.SpinInteraction.matrix_function([(0, o.otype)], 1)),
                ("two0", lambda o: Q.SpinInteraction.matrix_function([(0, o.otype), (1, o.otype)], 2, 1))]
    for r in rep.rounds(60):
        d = rng.randint(1, 3)
        p = [rng.choice([float(rng.randint(-3, 3)), rng.uniform(-3, 3)]) for _ in range(d)]
        mk = rng.choice([np.array, list])
        exercise(rep, "SiteID", Q.SiteID, lambda: (mk(p),), sobs, SQ[:2])
        exercise(rep, "StateID", lambda a: Q.StateID(a, spin=1, orbit=2), lambda: (mk(p),), sobs, SQ[:2])
        exercise(rep, "AoC", lambda a: Q.AoC(rng.choice([0, 0]), a, spin=1), lambda: (mk(p),), sobs, SQ + [("state", lambda o: o.state.site)])
        exercise(rep, "NumberOperator", lambda a: Q.NumberOperator(a, spin=1), lambda: (mk(p),), sobs, SQ + [("state", lambda o: o.state.site), ("toterm", lambda o: [c.site for c in o.toterm().components])])
        ot = rng.choice("xyzpm")
        exercise(rep, "SpinOperator", lambda a: Q.SpinOperator(ot, a), lambda: (mk(p),), spobs, SPQ)


def terms(rep):
    rng = rep.rng
    for r in rep.rounds(80):
        m = rng.randint(1, 4)
        ops = [Q.AoC(rng.choice([0, 1]), (rng.randint(0, 2),), spin=rng.randint(0, 1)) for _ in range(m)]
        table = hp.IndexTable([Q.StateID((i,), spin=s) for i in range(3) for s in (0, 1)])
        bases = hp.base_vectors(6)

        def tobs(t):
            return repr([[repr(o) for o in t.components], t.coeff, t.classification, str(t), t.check_compatibility(), freeze(t.matrix_repr(table, bases)), repr(t.dagger().components), t.tolatex()])
        TQ = [("components", lambda t: t.components), ("dagger", lambda t: t.dagger().components),
              ("matrix_repr", lambda t: t.matrix_repr(table, bases)), ("triple", lambda t: t.matrix_repr(table, bases, to_csr=False)),
              ("mul", lambda t: (t * 2.0).components), ("mul2", lambda t: (t * t).components), ("mul3", lambda t: (ops[0] * t if False else t * ops[0]).components), ("rmul", lambda t: (3 * t).components)]
        exercise(rep, "ParticleTerm", lambda l: Q.ParticleTerm(l, coeff=1.5), lambda: (list(ops),), tobs, TQ)
        sops = [Q.SpinOperator(rng.choice("xyzpm"), (rng.randint(0, 2),)) for _ in range(m)]
        stable = hp.IndexTable([Q.SiteID((i,)) for i in range(3)])

        def iobs(t):
            return repr([[repr(o) for o in t.components], t.coeff, str(t), freeze(t.matrix_repr(stable)), repr(t.dagger().components), [(repr(x.components), x.coeff) for x in t.Schwinger()]])
        IQ = [("components", lambda t: t.components), ("dagger", lambda t: t.dagger().components), ("matrix_repr", lambda t: t.matrix_repr(stable)),
              ("Schwinger", lambda t: [x.components for x in t.Schwinger()]), ("mul", lambda t: (t * 2.0).components), ("mul2", lambda t: (t * t).components)]
        exercise(rep, "SpinInteraction", lambda l: Q.SpinInteraction(l, coeff=-0.5), lambda: (list(sops),), iobs, IQ)
        # normalisation and bases
        keep = list(ops)
        try:
            out, n = Q.ParticleTerm.normalize(keep)
            out.append(None)
        except Exception:
            pass
        rep.expect(len(keep) == len(ops) and all(a is b for a, b in zip(keep, ops)), "normalize/frame", "", ops=ops)
        b2 = np.array(bases)
        Q.ParticleTerm(ops).matrix_repr(table, bases, left_bases=b2)
        rep.expect(np.array_equal(bases, np.arange(64)) and np.array_equal(b2, np.arange(64)), "matrix_repr/frame", "", ops=ops)


def spaces(rep):
    rng = rep.rng

    def hobs(o):
        out = [repr(o), str(o)] + [freeze(o.base_vectors(container=c, sort=s)) for c in ("list", "tuple", "array") for s in (True, False)] + [freeze(o())]
        out += [freeze(o.subspace_specifiers) if isinstance(o, HilbertSpace) else (o.single_particle_states, o.state_number, o.particle_number)]
        return repr(out)
    HQ = [("list", lambda o: o.base_vectors(container="list")), ("array", lambda o: o.base_vectors()), ("tuple", lambda o: o.base_vectors(container="tuple")),
          ("unsorted", lambda o: o.base_vectors(container="list", sort=False))]
    for r in rep.rounds(60):
        st = rng.sample(range(9), rng.randint(1, 5))
        k = rng.randint(-1, len(st))
        st2 = [s + 10 for s in rng.sample(range(5), 2)]
        exercise(rep, "SimpleHilbertSpace", SimpleHilbertSpace, lambda: (list(st), k), hobs, HQ + [("states", lambda o: o.single_particle_states)])
        exercise(rep, "HilbertSpace", HilbertSpace, lambda: ([list(st), k], [list(st2), 1]), hobs, HQ + [("specs", lambda o: o.subspace_specifiers)])
        exercise(rep, "HilbertSpace-tuple", HilbertSpace, lambda: ((list(st), k), (list(st2), -1)), hobs, HQ + [("specs", lambda o: o.subspace_specifiers)])
        a = [list(st), k]
        hp.base_vectors(a)
        rep.expect(a == [st, k], "base_vectors/arguments-changed", "", st=st)


def run(rep):
    sections(rep, bonds, shapes, quantum, terms, spaces, lattices)
