"""C22: public objects share no mutable storage with their callers.

Contract of every constructor and query, for arbitrary values:
  frame       the arguments and the constants of the package are left as they were;
  ownership   the mutable storage (arrays, lists, dictionaries, sets, objects with settable properties)
              reachable from the arguments, and from the result of a query, is disjoint from the storage the
              object or the package keeps.  Where they do meet, the shared storage is overwritten with
              arbitrary values and everything observable must be what it was;
  stability   every observer reports the same after the query as before.
By induction over a history these give the property for every interleaving.
"""
from .base import *
from .c11 import FP
from .c07 import site, label
from . import lattice as L
from .strings import string, dagger_contract
from pyvc.interp import PyClass, Module, Prop, Func
from pyvc.lib import PSet
from pyvc.sarr import SArr, Store
from pyvc.seqs import SList, SSeq, storage
from pyvc import sarr

QS = "HamiltonianPy.quantumoperator.quantumstate"
PS = "HamiltonianPy.quantumoperator.particlesystem"
SS = "HamiltonianPy.quantumoperator.spinsystem"
QC = "HamiltonianPy.quantumoperator.constant"
LAT, DB = "HamiltonianPy.lattice.lattice", "HamiltonianPy.lattice._lattice_database"
BO, L2, PG, HS, ROT = ("HamiltonianPy." + m for m in ("bond", "line2d", "polygon", "hilbertspace", "rotation3d"))
TRUST = [FP, "np.array(copy=True), arithmetic and library functions return fresh arrays; slices, reshape, asarray return views (as numpy does)",
         "instances without settable properties cannot be modified from outside (their own contract here)"]


# -- storage --------------------------------------------------------------------------
def settable(o):
    return isinstance(o, Obj) and any(isinstance(x, Prop) and x.fset is not None for k in o.cls.mro if isinstance(k, PyClass) for x in k.env.values())


def kids(v, deep):
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, (PDict,)):
        return [x for kv in v.items_ for x in kv]
    if isinstance(v, PSet):
        return list(v.items_)
    if isinstance(v, (dict,)):
        return [x for kv in v.items() for x in kv]
    if isinstance(v, (set, frozenset)):
        return list(v)
    if isinstance(v, Obj) and deep:
        return list(v.attrs.values())
    if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype == object:
        return []
    return []


def owned(v, deep=True, seen=None, path="value", out=None):
    """[(path, storage)] of the mutable storage reachable from a value; with deep, also that kept by instances."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen or isinstance(v, (S, Cx, int, float, Fraction, str, type(None), bool)):
        return out
    seen.add(id(v))
    if isinstance(v, (np.ndarray, SArr)):
        if not (isinstance(v, np.ndarray) and (v.ndim == 0 or v.size == 0)):
            out.append((path, v))
    elif isinstance(v, (list, PDict, PSet, SList, dict, set)):
        out.append((path, v))
    elif settable(v):
        out.append((path, v))
    elif getattr(v, "mutable", False):
        out.append((path, v))
    elif isinstance(v, Func):
        for i, x in enumerate(list(v.defaults or []) + list(v.kwdefaults or []) + list(v.attrs.values())):
            owned(x, deep, seen, "%s default %d" % (path, i), out)
    elif isinstance(v, PyClass):
        for n, x in v.env.items():
            owned(x, deep, seen, "%s.%s" % (path, n), out)
    elif isinstance(v, Module):
        if v.name.startswith("HamiltonianPy"):
            for n, x in v.env.items():
                if not isinstance(x, Module):
                    owned(x, deep, seen, "%s.%s" % (v.name, n), out)
    elif isinstance(v, Prop):
        for x in (v.fget, v.fset):
            owned(x, deep, seen, path, out)
    for i, x in enumerate(kids(v, deep)):
        owned(x, deep, seen, path if isinstance(v, Obj) else "%s[%d]" % (path, i), out)
    return out


def meet(x, y):
    a, b = storage(x), storage(y)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return np.shares_memory(a, b)
    return a is b


def shared(xs, ys):
    return [(p, x, q, y) for p, x in xs for q, y in ys if meet(x, y)]


def package(h):
    out, seen = [], set()
    for m in list(h.rt.modules.values()):
        owned(m, True, seen, m.name, out)
    return out


def snapshot(v):
    """A copy of the contents."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, SArr):
        rd = v.reader()
        return SArr(v.shape, rd, v.kind)
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, PDict):
        return PDict([(k, snapshot(x)) for k, x in v.items_], v.ordered)
    if isinstance(v, PSet):
        s = PSet()
        s.items_ = list(v.items_)
        return s
    if isinstance(v, SList):
        return (v.n, v.fn)
    if settable(v):
        o = Obj(v.cls)
        o.attrs = dict(v.attrs)
        return o
    return v


def same(h, a, b):
    """Formula: two values have the same contents."""
    T, F = z3.BoolVal(True), z3.BoolVal(False)
    if a is b and not isinstance(a, (np.ndarray, SArr, list)):
        return T
    if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
        if not isinstance(a, (SArr, np.ndarray)) or not isinstance(b, (SArr, np.ndarray)) or len(a.shape) != len(b.shape):
            if isinstance(a, np.ndarray) and a.ndim == 0 and is_num(b):
                return eqz(a[()], b)
            return F
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            return value_eq(h.rt, a, b)
        idx = [h.int("e") for _ in a.shape]
        a, b = sarr.as_sarr(h.rt, a), sarr.as_sarr(h.rt, b)
        fs = [eqz(x, y) for x, y in zip(a.shape, b.shape)]
        return And(fs + [Implies(And([And(i.e >= 0, i.e < zi(n)) for i, n in zip(idx, a.shape)]), eqz(a.get(tuple(idx)), b.get(tuple(idx))))])
    if (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))) and not isinstance(a, SList) and not isinstance(b, SList):
        if type(a) is not type(b) or len(a) != len(b):
            return F
        return And([same(h, x, y) for x, y in zip(a, b)] + [T])
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.items_) != len(b.items_):
            return F
        return And([And(same(h, k, q), same(h, x, y)) for (k, x), (q, y) in zip(a.items_, b.items_)] + [T])
    if isinstance(a, PSet) and isinstance(b, PSet):
        return same(h, list(a.items_), list(b.items_))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
            return F
        return And([same(h, a.attrs[n], b.attrs[n]) for n in a.attrs] + [T])
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        k = h.int("e")
        return And(eqz(a.n, b.n), Implies(And(k.e >= 0, k.e < zi(a.n)), same(h, a.fn(k), b.fn(k))))
    if isinstance(a, tuple) and len(a) == 2 and isinstance(b, SList):
        a, b = b, a
    if isinstance(a, SList):
        n, fn = (b.n, b.fn) if isinstance(b, SList) else b
        k = h.int("e")
        return T if n is a.n and fn is a.fn else And(eqz(a.n, n), Implies(And(k.e >= 0, k.e < zi(n)), same(h, a.fn(k), fn(k))))
    if is_num(a) and is_num(b):
        return value_eq(h.rt, a, b)
    if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr):
        return T
    try:
        return formula(h.rt.eq(a, b))
    except Unsupported:
        return z3.BoolVal(a is b)


def overwrite(h, v):
    """The caller does whatever it likes with a mutable value."""
    if isinstance(v, np.ndarray):
        for i in np.ndindex(*v.shape):
            v[i] = fresh("r", "overwritten")
    elif isinstance(v, SArr):
        f = z3.Function(h.c.name("overwritten"), *([z3.IntSort()] * len(v.shape) + [z3.RealSort()]))
        n = f.arity()
        # through a view, the elements seen through it; the rest of the storage may change as well
        v.store.fn = lambda j: S(z3.Real(h.c.name("overwritten"))) if len(j) != n else S(f(*[zi(x) for x in j]))
    elif isinstance(v, list):
        v.append(None)
        v[0] = None
    elif isinstance(v, (PDict, PSet)):
        del v.items_[:]
    elif isinstance(v, SList):
        v.n, v.fn = 1, lambda k: None
    elif settable(v):
        for k in v.cls.mro:
            for n, x in (k.env.items() if isinstance(k, PyClass) else ()):
                if isinstance(x, Prop) and x.fset is not None:
                    h.rt.call(x.fset, [v, fresh("r", "overwritten")], {})
    else:
        raise Unsupported("overwriting a %s" % type(v).__name__)


# -- the contract ---------------------------------------------------------------------
def constants(h):
    """The public constants of the package."""
    out = {}
    for m in list(h.rt.modules.values()):
        if m.name.startswith("HamiltonianPy"):
            for n, v in m.env.items():
                if n.isupper() and not n.startswith("_") and isinstance(v, (np.ndarray, PDict, dict, tuple, list)):
                    out[(m.name, n)] = (v, snapshot(v))
    return out


def isolate(h, make, args, observers, queries, obj=None, inputs=(), twins=True):
    """make(*args): the object (or obj is given); observers, queries: [(name, function of the object)].
    A query may return (result, [arguments])."""
    before = constants(h)
    kept = [snapshot(a) for a in args]
    twin = None
    if obj is None:
        if twins:
            twin = h.ensure_ok("the object is built", h.outcome(lambda: make(*args)))
        obj = h.ensure_ok("the object is built", h.outcome(lambda: make(*args)))
    if not isinstance(obj, Obj):
        raise Unsupported("not an instance")

    def frame(what, xs, ks):
        h.ensure("%s: arguments unchanged" % what, And([same(h, a, k) for a, k in zip(xs, ks)] + [z3.BoolVal(True)]))
        for (m, n), (v, k) in before.items():
            now = h.rt.modules[m].env.get(n)
            if now is not v or not identical(now, k):
                h.ensure("%s: the constant %s.%s is unchanged" % (what, m, n), same(h, now, k))
    frame("constructor", args, kept)

    def report(obj=obj):
        return [(n, snapshot(f(obj))) for n, f in observers]

    def unchanged(what, was):
        for (n, a), (_, b) in zip(was, report()):
            h.ensure("%s: %s reports the same" % (what, n), same(h, b, a))
    mine = lambda: owned(obj) + package(h)
    common = shared([x for a in args for x in owned(a, False, path="argument")], mine())
    if not common:
        h.ensure("no storage shared with the arguments", True)
    else:
        was = report()
        for _, x, _, _ in common:
            overwrite(h, x)
        unchanged("after modifying an argument (shared with the object)", was)
        frame("after modifying an argument", [], [])
    name, q = h.choose(queries, "query")
    was = report()
    if isinstance(twin, Obj) and not common:
        # an object of which nothing else has been asked before
        q(twin)
        for (n, a), (_, b) in zip(was, report(twin)):
            h.ensure("%s asked first: %s reports the same" % (name, n), same(h, b, a))
    qa = []
    r = q(obj)
    if isinstance(r, Query):
        r, qa, qk = r.value, r.args, r.kept
        frame(name, qa, qk)
    frame(name, args if not common else [], kept)
    unchanged(name, was)
    res = owned(r, False, path="result")
    own = mine()
    common = shared(res, own) + shared(res, [x for a in qa for x in owned(a, False, path="argument")]) + shared([x for a in qa for x in owned(a, False, path="argument")], own)
    if not common:
        h.ensure("%s: no storage shared with the result" % name, True)
        return obj
    first = snapshot(r)
    for _, x, _, _ in common:
        overwrite(h, x)
    unchanged("%s: after modifying the result" % name, was)
    frame("%s: after modifying the result" % name, [], [])
    again = q(obj)
    h.ensure("%s: the same result after modifying the first" % name, same(h, again.value if isinstance(again, Query) else again, first))
    return obj


def identical(a, b):
    """Syntactically the same contents (cheap)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and all(x is y or (not isinstance(x, (S, Cx)) and x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, PDict) and isinstance(b, PDict):
        return len(a.items_) == len(b.items_) and all(identical(k, q) and identical(x, y) for (k, x), (q, y) in zip(a.items_, b.items_))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    return a is b or (type(a) is type(b) and isinstance(a, (int, str, float, complex, Fraction)) and a == b)


class Query:
    """The result of a query with mutable arguments."""

    def __init__(self, value, args, kept):
        self.value, self.args, self.kept = value, args, kept


def with_args(f, *make):
    def q(o):
        xs = [m() for m in make]
        ks = [snapshot(x) for x in xs]
        return Query(f(o, *xs), xs, ks)
    return q


def c15_product(rt, a, rep):
    from . import c15
    return c15.product(rt, a, rep)


def c15_pdist(rt, a, k):
    from .c15 import pdist
    return pdist(rt, a, k)


class Table:
    """An index table (only handed on)."""
    pytype = object

    def m_len(self, rt):
        return fresh("i", "size")


def abstract_op(h, cls):
    from .strings import abstract
    return abstract(cls, h.int("x").e)


def tasks():
    out = []

    def T(name, fn, functions, mods, bounded=None, **kw):
        task = Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=list(mods), assumes=TRUST, **kw)
        if bounded:
            task.bounded = bounded
        out.append(task)

    def point(h, n, d, kind=None):
        v = [h.real(n) for _ in range(d)]
        kind = kind or h.choose([list, "array", tuple], "kind")
        return np.array(v, dtype=object) if kind == "array" else kind(v)

    def attrs(h, *names):
        return [(n, lambda o, n=n: h.attr(o, n)) for n in names]

    def meths(h, *names):
        return [(n if isinstance(n, str) else "%s%r" % (n[0], n[1:]), lambda o, n=n: h.meth(o, n) if isinstance(n, str) else h.meth(o, n[0], *n[1:])) for n in names]

    # -- bonds ------------------------------------------------------------------------
    def bond(h):
        d = h.choose([1, 2, 3], "dim")
        kind = h.choose([list, "array", tuple], "kind")
        direct = h.choose([True, False], "directional")
        p = point(h, "p", d, kind)
        q = p if h.choose([False, True], "same object") else point(h, "q", d, kind)
        nd = h.int("ndigits")
        C = h.get(BO, "Bond")
        obs = attrs(h, "endpoints", "directional") + meths(h, "getLength") + [("hash", lambda o: h.call(h.rt.builtins["hash"], o))]
        qs = attrs(h, "endpoints", "directional") + meths(h, "getLength", ("getLength", nd))
        if direct:
            obs += meths(h, "getDisplace")
            qs += meths(h, "getDisplace", ("getDisplace", nd), "flip") + [("flip().endpoints", lambda o: h.attr(h.meth(o, "flip"), "endpoints"))]
            qs += [("oppositeTo", lambda o: h.meth(o, "oppositeTo", o)), ("==", lambda o: h.rt.eq(o, o))]
        isolate(h, lambda a, b: h.call(C, a, b, directional=direct), [p, q], obs, qs)
    T("Bond", bond, [BO + ".Bond"], [BO], max_paths=2000)

    def azimuth(h):
        d = h.choose([1, 2, 3], "dim")
        p, q = point(h, "p", d, "array"), point(h, "q", d, "array")
        C = h.get(BO, "Bond")
        kw = h.choose([{}, {"radian": True}, {"ndigits": 3}], "options")
        isolate(h, lambda a, b: h.call(C, a, b), [p, q], attrs(h, "endpoints") + meths(h, "getDisplace"),
                [("getAzimuth", lambda o: h.meth(o, "getAzimuth", **kw))])
    T("Bond.getAzimuth", azimuth, [BO + ".Bond.getAzimuth"], [BO], max_paths=2000)

    # -- lines and polygons -------------------------------------------------------------
    def line(h):
        p, q = point(h, "p", 2), point(h, "q", 2, "array")
        from .c18 import absz, TOL
        h.requires(Or(gt(absz(sub(q[0], p[0])), TOL), gt(absz(sub(q[1], p[1])), TOL)))
        C = h.get(L2, "Line2D")
        known = h.real("known")
        h.requires(known.e != 0)

        def coord(w):
            def f(o):
                r = h.outcome(h.attr(o, "Coordinate"), known, w)
                return r if r[0] == "raise" else r[1]
            return f
        ratios = lambda: h.vec(2, "ratio")
        obs = attrs(h, "IsHorizontal", "IsVertical") + [("Coordinate(x)", coord("x")), ("Coordinate(y)", coord("y"))]
        fixed = np.array([Fraction(0), Fraction(1), Fraction(1, 3)], dtype=object)
        obs += [("PointsFactory(0, 1, 1/3)", lambda o: h.meth(o, "PointsFactory", fixed.copy()))]
        qs = attrs(h, "IsHorizontal") + [("Coordinate", coord("x")), ("PointsFactory", with_args(lambda o, a: h.meth(o, "PointsFactory", a), ratios)),
                                         ("PointsFactory of one ratio", with_args(lambda o, a: h.meth(o, "PointsFactory", a), lambda: np.array([0], dtype=object))),
                                         ("PointsFactory of a list", with_args(lambda o, a: h.meth(o, "PointsFactory", a), lambda: [h.real("ratio")])),
                                         ("LocationRelation", with_args(lambda o, a: h.meth(o, "LocationRelation", a), lambda: h.vec(2, "point")))]
        isolate(h, lambda a, b: h.call(C, a, b), [p, q], obs, qs)
    T("Line2D", line, [L2 + ".Line2D"], [L2], max_paths=4000)

    def polygon(h):
        from .c18 import Poly
        C = h.get(PG, "Polygon")
        n = h.int("n")
        h.requires(n.e >= 3)
        f = z3.Function(h.c.name("vertex"), z3.IntSort(), z3.IntSort(), z3.RealSort())
        v = SArr((n, 2), lambda j: S(f(zi(j[0]), zi(j[1]))), "r")
        o = h.outcome(lambda: h.call(C, v))
        if o[0] == "raise":
            raise PathEnd()
        k = SArr((n, 2), lambda j: S(f(zi(j[0]), zi(j[1]))), "r")
        h.ensure("constructor: arguments unchanged", same(h, v, k))
        com = shared(owned(v, False, path="argument"), owned(o[1]) + package(h))
        for _, x, _, _ in com:
            overwrite(h, x)
        h.ensure("vertices are those given, whatever becomes of the argument", same(h, h.attr(o[1], "vertices"), k))
        isolate(h, None, [], attrs(h, "vertices", "vertices_num"), attrs(h, "vertices", "vertices_num"), obj=o[1])
    T("Polygon", polygon, [PG + ".Polygon.__init__", PG + ".Polygon.vertices", PG + ".Polygon.vertices_num"], [PG], uses={"scipy.pdist": L.pdist})

    # -- sites, states, operators ---------------------------------------------------------
    def quantum(h):
        d = h.choose([1, 2, 3], "dim")
        p = point(h, "p", d)
        s, o = label(h, "s"), label(h, "o")
        C, A = h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        kinds = {"SiteID": (QS, lambda a: h.call(h.get(QS, "SiteID"), a), [], []),
                 "StateID": (QS, lambda a: h.call(h.get(QS, "StateID"), a, s, o), ["spin", "orbit"], []),
                 "AoC": (PS, lambda a: h.call(h.get(PS, "AoC"), C, a, s, o), ["spin", "orbit", "otype"], ["dagger", "derive"]),
                 "NumberOperator": (PS, lambda a: h.call(h.get(PS, "NumberOperator"), a, s, o), ["spin", "orbit"], ["toterm", "derive", "dagger"])}
        name = h.choose(list(kinds), "class")
        mod, make, fields, ms = kinds[name]
        hsh = h.rt.builtins["hash"]
        obs = attrs(h, "site", "coordinate", *fields) + [("hash", lambda x: h.call(hsh, x))]
        qs = attrs(h, "site", "coordinate") + [("hash", lambda x: h.call(hsh, x)), ("==", lambda x: h.rt.eq(x, x))]
        for m in ms:
            qs.append((m, lambda x, m=m: h.meth(x, m)))
            if m != "toterm":
                qs.append((m + "().site", lambda x, m=m: h.attr(h.meth(x, m), "site")))
        if name in ("AoC", "NumberOperator"):
            qs.append(("state.site", lambda x: h.attr(h.attr(x, "state"), "site")))
            qs.append(("term", lambda x: h.attr(h.rt.binop("*", x, 2), "components")))
        isolate(h, make, [p], obs, qs)
    T("SiteID, StateID, AoC, NumberOperator", quantum, [QS + ".SiteID", QS + ".StateID", PS + ".AoC", PS + ".NumberOperator"], [QS, PS], max_paths=4000, budget=200)

    class Matrix:
        model = True
        pytype = object

        def __init__(self, parts=()):
            self.parts = parts

        def m_kind(self):
            return "opmat"

        def m_binop(self, rt, op, o, left):
            return Matrix()

        def m_attr(self, rt, name):
            if name in ("dot", "tocsr", "copy"):
                return Native(name, lambda r, a, k: Matrix())
            raise Unsupported("attribute %s of a sparse matrix" % name)
    SPARSE = {"scipy.kron": lambda rt, a, k: Matrix(), "scipy.identity": lambda rt, a, k: Matrix(), "scipy.csr_matrix": lambda rt, a, k: Matrix()}

    def spin(h):
        d = h.choose([1, 3], "dim")
        p = point(h, "p", d)
        ot = h.choose(["x", "y", "z", "p", "m"], "type")
        C = h.get(SS, "SpinOperator")
        obs = attrs(h, "site", "coordinate", "otype") + meths(h, "matrix") + [("SPIN_MATRICES", lambda o: h.get(QC, "SPIN_MATRICES"))]
        qs = attrs(h, "site") + meths(h, "matrix", "dagger", "derive", "Schwinger")
        qs += [("dagger().matrix()", lambda o: h.meth(h.meth(o, "dagger"), "matrix")), ("derive().site", lambda o: h.attr(h.meth(o, "derive"), "site")),
               ("site_id.site", lambda o: h.attr(h.attr(o, "site_id"), "site")), ("product", lambda o: h.rt.binop("*", o, o)),
               ("matrix_function", lambda o: h.call(h.attr(C, "matrix_function"), (0, ot), 2)),
               ("matrix_function of a pair", with_args(lambda o, a: h.call(h.attr(h.get(SS, "SpinInteraction"), "matrix_function"), a, 3), lambda: [(0, ot), (1, "x")])),
               ("matrix_function of one", with_args(lambda o, a: h.call(h.attr(h.get(SS, "SpinInteraction"), "matrix_function"), a, 1), lambda: [(0, ot)]))]
        isolate(h, lambda a: h.call(C, ot, a), [p], obs, qs)
    T("SpinOperator", spin, [SS + ".SpinOperator", SS + ".SpinInteraction.matrix_function"], [SS], uses=SPARSE, max_paths=4000)
    
    # -- terms: any number of operators -----------------------------------------------------
    def numbers(h, n):
        return h.choose([h.real, h.cx], "coefficient")(n)

    def term(h):
        AoC, PT = h.get(PS, "AoC"), h.get(PS, "ParticleTerm")
        n, F, seq = string(h, AoC, "a", None, h.choose([tuple, list], "kind"))
        c = numbers(h, "c")
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        x = abstract_op(h, AoC)
        obs = attrs(h, "components", "coeff", "classification")
        qs = attrs(h, "components", "coeff") + meths(h, "dagger")
        k = h.choose([2, 1, "variable"], "factor")
        k = h.real("k") if k == "variable" else k
        qs += [("dagger().components", lambda o: h.attr(h.meth(o, "dagger"), "components")), ("term*number", lambda o: h.rt.binop("*", o, k)),
               ("number*term", lambda o: h.rt.binop("*", k, o)), ("term*term", lambda o: h.rt.binop("*", o, o)),
               ("term*operator", lambda o: h.rt.binop("*", o, x)), ("operator*term", lambda o: h.rt.binop("*", x, o)),
               ("components of a product", lambda o: h.attr(h.rt.binop("*", o, k), "components")),
               ("matrix_repr", lambda o: h.meth(o, "matrix_repr", Table(), 0))]
        isolate(h, lambda a: h.call(PT, a, c, classification=cl), [seq], obs, qs)
    T("ParticleTerm of any number of operators", term, [PS + ".ParticleTerm"], [PS], uses={**dagger_contract(PS, "AoC"), PS + ".AoC.getStateIndex": lambda rt, f, a, k: fresh("i", "index"), PS + ".AoC.otype": lambda rt, f, a, k: fresh("i", "type"),
            "HamiltonianPy.quantumoperator.matrixrepr.matrix_function": lambda rt, f, a, k: Matrix()},
      max_paths=6000, budget=250)

    def interaction(h, n=None):
        SO, SI = h.get(SS, "SpinOperator"), h.get(SS, "SpinInteraction")
        if n is None:
            _, F, seq = string(h, SO, "a", None, h.choose([tuple, list], "kind"))
            x = abstract_op(h, SO)
        else:
            ops = [h.call(SO, h.choose(["p", "z"], "type"), tuple([h.real("x") for _ in range(2)])) for _ in range(n)]
            x, seq = ops[0], h.choose([list, tuple], "kind")(ops)
        c = numbers(h, "c")
        obs = attrs(h, "components", "coeff")
        k = h.choose([2, 1, "variable"], "factor")
        k = h.real("k") if k == "variable" else k
        qs = attrs(h, "components", "coeff") + meths(h, "dagger")
        qs += [("dagger().components", lambda o: h.attr(h.meth(o, "dagger"), "components")), ("interaction*number", lambda o: h.rt.binop("*", o, k)),
               ("number*interaction", lambda o: h.rt.binop("*", k, o)), ("interaction*interaction", lambda o: h.rt.binop("*", o, o)),
               ("interaction*operator", lambda o: h.rt.binop("*", o, x)), ("operator*interaction", lambda o: h.rt.binop("*", x, o))]
        if n is None:
            f = SS + ".SpinInteraction.matrix_function"
            qs.append(("matrix_repr", lambda o: h.meth(o, "matrix_repr", Table())))
        else:
            qs = meths(h, "Schwinger")
        isolate(h, lambda a: h.call(SI, a, c), [seq], obs, qs, twins=False)      # the sorted order of equal operators is not a function of the input
    from .c09 import U as SPIN
    from . import c09terms
    from .strings import seq_of, code
    SPIN = {**SPIN, SS + ".SpinOperator.getSiteIndex": lambda rt, f, a, k: fresh("i", "index"), SS + ".SpinOperator.otype": lambda rt, f, a, k: "z",
            SS + ".SpinInteraction.matrix_function": lambda rt, f, a, k: Matrix()}
    T("SpinInteraction of any number of operators", interaction, [SS + ".SpinInteraction"], [SS], uses=SPIN, max_paths=6000, budget=250)

    def schwinger(h):
        """Terms of an interaction of any length: a list of its own for every call, the interaction is as it was."""
        n, F, seq = string(h, h.get(SS, "SpinOperator"), "a", None, h.choose([tuple, list], "kind"))
        t = h.call(h.get(SS, "SpinInteraction"), seq, numbers(h, "c"))
        s = seq_of(h, h.attr(t, "components"))
        if s is None:
            raise Unsupported("components kept in another way")
        c09terms.again(h, t, s[0], lambda q: code(h.rt, s[1](S(q))), None)
    T("Schwinger terms of interactions of any number of operators", schwinger, [SS + ".SpinInteraction.Schwinger"], [SS], invariants=c09terms.invariants,
      uses={**SPIN, **c09terms.HOOKS, SS + ".SpinOperator.Schwinger": c09terms.subterms}, max_paths=3000)

    T("the terms of an interaction of one or two operators are the caller's", lambda h: interaction(h, h.choose([1, 2], "number")), [SS + ".SpinInteraction.Schwinger"], [SS],
      uses=SPARSE, bounded="interactions of one or two operators", max_paths=6000, budget=250)

    def setter(h):
        """The documented way to change a coefficient changes nothing else."""
        mod, cls, op = h.choose([(PS, "ParticleTerm", "AoC"), (SS, "SpinInteraction", "SpinOperator")], "class")
        K = h.get(mod, cls)
        if cls == "ParticleTerm":
            n, F, seq = string(h, h.get(mod, op), "a")
        else:
            seq = (h.call(h.get(mod, op), "p", (h.real("x"),)),)
        t, u = h.call(K, seq, h.real("c")), h.call(K, seq, h.real("d"))
        was = [(n, snapshot(h.attr(u, n))) for n in ("components", "coeff")]
        comp = snapshot(h.attr(t, "components"))
        c = numbers(h, "new")
        t_set = [x for k in t.cls.mro if isinstance(k, PyClass) for n, x in k.env.items() if n == "coeff" and isinstance(x, Prop)][0]
        h.rt.call(t_set.fset, [t, c], {})
        h.ensure("the coefficient is the new one", value_eq(h.rt, h.attr(t, "coeff"), c))
        h.ensure("the operators are the same", same(h, h.attr(t, "components"), comp))
        for n, v in was:
            h.ensure("another term of the same operators reports the same %s" % n, same(h, h.attr(u, n), v))
    T("coefficient setter", setter, [PS + ".ParticleTerm.coeff", SS + ".SpinInteraction.coeff"], [PS, SS])

    def matrix(h):
        """matrix_function leaves its arguments as they are and keeps nothing of them."""
        from . import c01
        left = h.choose([False, True], "left")
        form = h.choose(["general", "hopping", "number", "Coulomb"], "form")
        string_ = None if form == "general" else [(h.bv("i%d" % q).e, cr) for q, cr in enumerate([True, False] if form != "Coulomb" else [True, False, True, False])]
        if left and form in ("number", "Coulomb"):
            raise PathEnd()
        pb = c01.Problem(h, left, string_)
        kw = {"left_bases": pb.left} if left else {}
        args = [pb.term, pb.right] + ([pb.left] if left else [])
        kept = [snapshot(a) for a in args]
        before = constants(h)
        o = h.outcome(lambda: h.call(h.get(MR, "matrix_function"), pb.term, pb.right, coeff=h.real("coeff"), to_csr=h.choose([True, False], "csr"), special_tag=form, **kw))
        h.ensure("matrix_function: arguments unchanged", And([same(h, a, k) for a, k in zip(args, kept)]))
        h.ensure("matrix_function: constants unchanged", z3.BoolVal(all(h.rt.modules[m].env.get(n) is v and identical(v, k) for (m, n), (v, k) in before.items())))
        if o[0] == "ok":
            h.ensure("matrix_function: no storage shared with the result", z3.BoolVal(not shared(owned(o[1], False), [x for a in args for x in owned(a, False)] + package(h))))
    from .c01 import USES as MUSES
    MR = "HamiltonianPy.quantumoperator.matrixrepr"
    T("matrix_function", matrix, [MR + ".matrix_function"], [MR], uses=dict(MUSES), max_paths=3000, budget=200)

    # -- Hilbert spaces -----------------------------------------------------------------------
    def simple(h):
        n = h.int("n")
        h.requires(n.e >= 1)
        f = z3.Function(h.c.name("state"), z3.IntSort(), z3.IntSort())
        q = z3.Int("q")
        h.c.assume(z3.ForAll([q], f(q) >= 0, patterns=[f(q)]))

        def at(j):
            h.c.assume(f(zi(j)) >= 0)
            return S(f(zi(j)))
        m = h.int("M")
        h.requires(m.e <= n.e)
        obs = attrs(h, "single_particle_states", "state_number", "particle_number")
        isolate(h, lambda a: h.call(h.get(HS, "SimpleHilbertSpace"), a, m), [SList(n, at)], obs, obs)
    from .c05 import USES as HUSES
    T("SimpleHilbertSpace of any list of states", simple, [HS + ".SimpleHilbertSpace.__init__", HS + ".SimpleHilbertSpace.single_particle_states"], [HS], uses={})

    def hilbert(h):
        which = h.choose(["simple", "list", "tuple"], "specifiers")
        m = h.choose([-1, 0, 1, 2], "number")
        c = h.choose(["list", "array", "tuple"], "container")
        sort = h.choose([True, False], "sort")
        bv = lambda c, s: (lambda o: h.meth(o, "base_vectors", container=c, sort=s))
        obs = [("base_vectors", bv("list", True)), ("unsorted base_vectors", bv("tuple", False)), ("call", lambda o: h.call(o))]
        qs = [("base_vectors", bv(c, sort))]
        if which == "simple":
            names = ["single_particle_states", "state_number", "particle_number"]
            isolate(h, lambda a: h.call(h.get(HS, "SimpleHilbertSpace"), a, m), [[3, 1]], obs + attrs(h, *names), qs + attrs(h, *names))
        else:
            pair = {"list": list, "tuple": tuple}[which]
            names = ["subspace_specifiers", "subspace_number"]
            args = [pair([[3, 1], m]), pair([[0, 7, 5], 1])]
            isolate(h, lambda *a: h.call(h.get(HS, "HilbertSpace"), *a), args, obs + attrs(h, *names), qs + attrs(h, *names))
    T("bases of Hilbert spaces", hilbert, [HS + ".HilbertSpace", HS + ".SimpleHilbertSpace.base_vectors"], [HS], bounded="one subspace of two states, two subspaces of two and three states", max_paths=3000)

    from . import c05
    for t in c05.tasks(isolation=True):
        t.name = "repeated queries, the first answer overwritten: " + t.name
        out.append(t)

    # -- lattices -----------------------------------------------------------------------------
    def lattice_queries(h, g):
        k = h.int("k")
        h.requires(And(k.e >= 0, k.e < zi(g.n)))
        g.interest.append(k.e)
        obs = attrs(h, "points", "vectors", "bs", "point_num", "space_dim", "trans_dim", "name") + [("getSite", lambda o: h.meth(o, "getSite", k))]
        qs = attrs(h, "points", "vectors", "bs") + [("getSite", lambda o: h.meth(o, "getSite", k))]
        s = L.Site(g, True)

        def safe(f):
            def q(o, *a):
                r = h.outcome(h.attr(o, f), *a)
                return r[1]
            return q
        qs += [(f, with_args(safe(f), s.vector)) for f in ("decompose", "getIndex", "in_cluster")]
        return obs, qs

    SHAPES = [(1, 1), (2, 1), (2, 2), (3, 3)]

    def lattice(d, t):
        def body(h):
            g = L.Geometry(h, d, t)
            o = h.outcome(h.get(LAT, "Lattice"), g.points, g.V)
            if o[0] == "raise":
                raise PathEnd()
            obs, qs = lattice_queries(h, g)
            lat = o[1]
            keep = SArr((g.n, d), lambda j: S(g.P(zi(j[0]), zi(j[1]))), "r")
            h.ensure("constructor: the points are unchanged", same(h, g.points, keep))
            mine = owned(lat) + package(h)
            com = shared([x for a in (g.points, g.V) for x in owned(a, False, path="argument")], mine)
            was = [(n, snapshot(f(lat))) for n, f in obs]
            for _, x, _, _ in com:
                overwrite(h, x)
            for (n, a), (_, b) in zip(was, [(n, f(lat)) for n, f in obs] if com else was):
                h.ensure("after modifying an argument: %s reports the same" % n, same(h, b, a))
            isolate(h, None, [], obs, qs, obj=lat)
        return body
    for d, t in SHAPES:
        task = Task("Lattice: any number of points, dimensions %d, %d" % (d, t), lambda rt, c, b=lattice(d, t): b(H(rt, c)),
                    [LAT + ".Lattice." + f for f in ("__init__", "points", "vectors", "bs", "getSite", "decompose", "getIndex", "in_cluster")],
                    modules=[LAT, DB], assumes=TRUST + L.TRUST, uses=dict(L.USES), budget=250)
        task.branch_ms = 1000
        out.append(task)

    def database(h):
        from . import c15
        f = h.choose(["lattice_generator", "special_cluster"], "function")
        obs = attrs(h, "points", "vectors", "bs")
        if f == "lattice_generator":
            which = h.choose(list(c15.CELLS), "lattice")
            nums = [h.int("n%d" % q) for q in range(3)]
            for x in nums:
                h.requires(x.e >= 1)
            make = lambda: h.call(h.get(DB, f), which, *nums)
        else:
            which = h.choose(list(c15.SPECIAL), "cluster")
            make = lambda: h.call(h.get(DB, f), which)
        lat = isolate(h, make, [], obs, obs + [("getSite", lambda o: h.meth(o, "getSite", 0))])
        for n, v in [(n, o(lat)) for n, o in obs]:
            later = h.attr(h.rt.call(Native("make", lambda rt, a, k: make()), [], {}), n)
            h.ensure("a lattice built afterwards has the same %s" % n, same(h, later, v))
    T("lattice database", database, [DB + ".lattice_generator", DB + ".special_cluster"], [DB, LAT], uses={"scipy.pdist": c15_pdist, "itertools.product": c15_product}, max_paths=3000)
    return out
