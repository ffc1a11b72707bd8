"""Models used by the contracts of C14: sets of translations, tables of distances, contracts of the helpers."""
from .base import *
from .lattice import *
from . import lattice as L
from pyvc.seqs import SList
from pyvc import npmodel as NPM
from pyvc.sym import is_num, compare, arith

CLS = LAT + ".Lattice"
ZOOM = z3.RealVal(10000)


# -- sets of translations -----------------------------------------------------------------
class TSet:
    """A set of integer tuples: mem(tuple) is a formula."""
    model = True
    mutable = True
    pytype = set

    def __init__(self, t, mem=None):
        self.t = t
        self.mem = mem or (lambda v: z3.BoolVal(False))

    @staticmethod
    def key(t, x):
        if not isinstance(x, tuple) or len(x) != t or not all(is_int(v) for v in x):
            raise Unsupported("member %r of a set of translations" % (x,))
        return [zi(v) for v in x]

    def m_contains(self, rt, x):
        return S(z3.simplify(self.mem(self.key(self.t, x))))

    def m_attr(self, rt, name):
        def change(op):
            def f(r, a, k):
                if name == "remove" and not r.truth(self.m_contains(r, a[0])):
                    raise PyRaise(KeyError("remove"))
                r.ver.note_write(self, None)
                new, old = self.key(self.t, a[0]), self.mem
                same = lambda v: And([x == y for x, y in zip(v, new)])
                self.mem = (lambda v: Or(old(v), same(v))) if op == "add" else (lambda v: And(old(v), Not(same(v))))
            return Native(name, f)
        if name in ("add", "discard", "remove"):
            return change(name)
        if name == "copy":
            return Native(name, lambda r, a, k: TSet(self.t, self.mem))
        raise Unsupported("set.%s of translations" % name)

    def m_len(self, rt):
        n = fresh("i", "members")
        Ctx.cur.assume(n.e >= 0)
        return n

    def m_snapshot(self, rt):
        return self.mem

    def m_heap_havoc(self, rt, snap):
        U = z3.Function(Ctx.cur.name("member"), *([I] * self.t + [B]))
        self.mem = lambda v: U(*v)

    def sym_iter(self, rt):
        """Every member once."""
        c = Ctx.cur
        N = z3.Int(c.name("members"))
        c.assume(N >= 0)
        cs = [z3.Function(c.name("member%d" % i), I, I) for i in range(self.t)]
        pl = z3.Function(c.name("place"), *([I] * self.t + [I]))
        mem = self.mem

        def at(k):
            e = zi(k)
            v = [f(e) for f in cs]
            Ctx.cur.assume(Implies(And(e >= 0, e < N), And(mem(v), pl(*v) == e)))
            return tuple(S(x) for x in v)

        def place(v):
            p = pl(*v)
            Ctx.cur.assume(Implies(mem(list(v)), And([p >= 0, p < N] + [f(p) == x for f, x in zip(cs, v)])))
            return p
        c.data.setdefault("listings", []).append(place)
        return SSeq(S(N), at, tuple)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, S) and z3.is_int(v.e)


def new_set(rt):
    g = Ctx.cur.data.get("geometry")
    return TSet(g.t) if g is not None else set()


def to_set(rt, s):
    g = geometry()
    seq = s.seq if isinstance(s, SIter) else s
    rs = getattr(seq, "ranges", None)
    if rs is None or len(rs) != g.t:
        raise Unsupported("set of %r" % (s,))
    return TSet(g.t, lambda v: And([And(x >= lo, x < lo + n) for x, (lo, n) in zip(v, rs)]))


def product(rt, a, rep):
    r = L.product(rt, a, rep)
    its = list(a) * rep
    ps = [getattr(proto(rt, x), "x", proto(rt, x)) for x in its]
    if all(isinstance(x, SRange) and x.step == 1 for x in ps):
        r.seq.ranges = [(zi(x.start), zi(x.length(rt))) for x in ps]
    return r


def reshape(rt, a, kw):
    """Rows of the leading two dimensions, row after row."""
    x = a[0]
    shape = kw.get("newshape", kw.get("shape", a[1] if len(a) > 1 else None))
    if not (isinstance(x, SArr) and x.ndim == 3 and isinstance(shape, (tuple, list)) and len(shape) == 2) or set(kw) - {"newshape", "shape"}:
        return NotImplemented
    if conc(shape[0]) != -1 or not isinstance(conc(x.shape[2]), int) or conc(shape[1]) != conc(x.shape[2]) or isinstance(conc(x.shape[0]), int) or isinstance(conc(x.shape[1]), int):
        return NotImplemented
    c = Ctx.cur
    N, n, rd = zi(x.shape[0]), zi(x.shape[1]), x.reader()
    T, q, r, J = z3.Int(c.name("rows")), z3.Function(c.name("block"), I, I), z3.Function(c.name("within"), I, I), z3.Function(c.name("row"), I, I, I)
    c.assume(And(T >= 0, Implies(And(N >= 1, n >= 1), T >= n), Implies(T >= 1, And(N >= 1, n >= 1))))
    # T = N n and s = q(s) n + r(s); only what this means for the order of the rows is used

    def at(j):
        s = zi(j[0])
        Ctx.cur.assume(Implies(And(s >= 0, s < T), And(q(s) >= 0, q(s) < N, r(s) >= 0, r(s) < n, J(q(s), r(s)) == s, (q(s) == 0) == (s < n),
                                                       Implies(q(s) == 0, r(s) == s))))
        return rd((S(q(s)), S(r(s)), j[1]))

    def join(u, v):
        s = J(u, v)
        Ctx.cur.assume(Implies(And(u >= 0, u < N, v >= 0, v < n), And(s >= 0, s < T, q(s) == u, r(s) == v, (u == 0) == (s < n), Implies(u == 0, s == v))))
        return s
    c.data.setdefault("joins", []).append(join)
    return SArr((S(T), x.shape[2]), at, x.kind)


def row_form(g, arr, k):
    """(point, translation) of row k."""
    F = g.linear([zr(arr.get((S(k), q))) for q in range(g.d)])
    if F is None or F.sites or len(F.pts) != 1 or F.pts[0][0] != 1:
        return None
    return F.pts[0][1], [zi(x) for x in F.m]


# -- distances and their levels ---------------------------------------------------------------
RINT = NPM.RINT


def rint_of(x):
    """Nearest integer; monotone (facts for the terms in use)."""
    c = Ctx.cur
    e = z3.simplify(x)
    r = RINT(e)
    c.assume(And(z3.ToReal(r) - e <= z3.RealVal("1/2"), e - z3.ToReal(r) <= z3.RealVal("1/2"), Implies(e == 0, r == 0)))
    for y in c.data.setdefault("rounded", []):
        if not y.eq(e):
            c.assume(And(Implies(y <= e, RINT(y) <= r), Implies(e <= y, r <= RINT(y))))
    if not any(y.eq(e) for y in c.data["rounded"]):
        c.data["rounded"].append(e)
    return r


def level_of(g, k, e, m):
    """The distance of a pair to the configured precision, in units of the precision."""
    return rint_of(ZOOM * g.length(k, e, m))


class Dists:
    """A table of distances between points and sites: at(row, col)."""
    model = True
    pytype = np.ndarray

    def __init__(self, n, m, at, root=None):
        self.n, self.m, self.at = n, m, at
        self.root = root or self

    def m_compare(self, rt, op, o):
        if not is_num(o):
            raise Unsupported("comparison of distances with %r" % (o,))
        return DMask(self.root, lambda a, b: formula(compare(op, S(self.at(a, b)), o)))

    def m_get(self, rt, i):
        if isinstance(i, DMask) and i.root is self.root:
            return Sel(self, i.cond)
        raise Unsupported("entries of a table of distances")

    def m_binop(self, rt, op, o, left):
        if not is_num(o):
            return NotImplemented
        return Dists(self.n, self.m, lambda a, b: zr(rt.binop(op, S(self.at(a, b)), o) if left else rt.binop(op, o, S(self.at(a, b)))), self.root)

    def m_np(self, rt, name, args, kw):
        if name in ("rint", "round", "around") and len(args) == 1 and not kw:
            return Dists(self.n, self.m, lambda a, b: z3.ToReal(rint_of(self.at(a, b))), self.root)
        if name == "unique" and len(args) == 1 and not kw:
            return Sel(self, lambda a, b: z3.BoolVal(True)).unique(rt)
        raise Unsupported("numpy.%s of a table of distances" % name)

    def m_attr(self, rt, name):
        if name in ("ravel", "flatten"):
            return Native(name, lambda r, a, k: Sel(self, lambda x, y: z3.BoolVal(True)))
        raise Unsupported("attribute %s of a table of distances" % name)


class DMask:
    model = True
    pytype = np.ndarray

    def __init__(self, root, cond):
        self.root, self.cond = root, cond

    def m_binop(self, rt, op, o, left):
        if isinstance(o, DMask) and o.root is self.root and op in ("&", "|"):
            return DMask(self.root, lambda a, b: (And if op == "&" else Or)(self.cond(a, b), o.cond(a, b)))
        return NotImplemented


class Sel:
    """The entries of a table where a condition holds (in any order)."""
    model = True
    pytype = np.ndarray

    def __init__(self, of, cond, f=None, share=None):
        self.of, self.cond, self.f = of, cond, f or (lambda x: x)
        if share is None:
            c = Ctx.cur
            share = (z3.Int(c.name("selected")), z3.Function(c.name("row"), I, I), z3.Function(c.name("col"), I, I), z3.Function(c.name("place"), I, I, I))
            c.assume(share[0] >= 0)
        self.share = share
        self.N, self.row, self.col, self.pl = share

    def at(self, j):
        a, b = self.row(j), self.col(j)
        Ctx.cur.assume(Implies(And(j >= 0, j < self.N), And(a >= 0, a < self.of.n, b >= 0, b < self.of.m, self.cond(a, b))))
        return self.f(self.of.at(a, b))

    def place(self, a, b):
        j = self.pl(a, b)
        Ctx.cur.assume(Implies(And(a >= 0, a < self.of.n, b >= 0, b < self.of.m, self.cond(a, b)), And(j >= 0, j < self.N, self.row(j) == a, self.col(j) == b)))
        return j

    def map(self, f):
        g = self.f
        return Sel(self.of, self.cond, lambda x: f(g(x)), self.share)

    def m_binop(self, rt, op, o, left):
        if not is_num(o):
            return NotImplemented
        return self.map(lambda x: zr(rt.binop(op, S(x), o) if left else rt.binop(op, o, S(x))))

    def m_np(self, rt, name, args, kw):
        if name in ("rint", "round", "around") and len(args) == 1 and not kw:
            return self.map(lambda x: z3.ToReal(rint_of(x)))
        if name == "unique" and len(args) == 1 and not kw:
            return self.unique(rt)
        raise Unsupported("numpy.%s of distances" % name)

    def m_attr(self, rt, name):
        if name == "size":
            return S(self.N)
        raise Unsupported("attribute %s of distances" % name)

    def unique(self, rt):
        """The different values, ascending."""
        c = Ctx.cur
        M, U, src, pl = z3.Int(c.name("levels")), z3.Function(c.name("level"), I, R), z3.Function(c.name("source"), I, I), z3.Function(c.name("position"), I, I)
        c.assume(And(M >= 0, M <= self.N, Implies(self.N >= 1, M >= 1)))
        read = []

        def fact(j):
            j = z3.simplify(j)
            if not any(x.eq(j) for x in read):
                read.append(j)
            s = src(j)
            v = self.at(s)
            Ctx.cur.assume(Implies(And(j >= 0, j < M), And(s >= 0, s < self.N, U(j) == v)))
            for i in read:
                if not i.eq(j):
                    Ctx.cur.assume(Implies(And(i >= 0, i < M, j >= 0, j < M), And(Implies(i < j, U(i) < U(j)), Implies(j < i, U(j) < U(i)))))

        def at(j):
            fact(j)
            return U(z3.simplify(j))

        def locate(g, k, e, m):
            out = []
            for site in c.data.get("sites", []):
                for col in site(e, [z3.simplify(-x) for x in m]):
                    i = self.place(k, col)
                    v = self.at(i)
                    p = pl(i)
                    Ctx.cur.assume(Implies(And(i >= 0, i < self.N), And(p >= 0, p < M, U(p) == v)))
                    fact(p)
                    out.append(p)
            return out
        return Levels(M, at, locate)


class Levels:
    """A table of distances in ascending order; locate gives the positions where the distance of a pair could be."""
    model = True
    mutable = False
    pytype = np.ndarray

    def __init__(self, n, at, locate):
        self.n, self.at, self.locate = n, at, locate

    def m_len(self, rt):
        return S(self.n)

    def m_kind(self):
        return "levels"

    def m_binop(self, rt, op, o, left):
        if not is_num(o):
            return NotImplemented
        return Levels(self.n, lambda j: zr(rt.binop(op, S(self.at(j)), o) if left else rt.binop(op, o, S(self.at(j)))), self.locate)

    def m_get(self, rt, i):
        if isinstance(i, (int, S)) and not isinstance(i, bool):
            k = zi(i)
            if not rt.truth(S(And(k >= -self.n, k < self.n))):
                raise PyRaise(IndexError("index out of range"))
            return S(self.at(z3.simplify(z3.If(k < 0, k + self.n, k))))
        raise Unsupported("entries %r of a table of distances" % (i,))

    def m_np(self, rt, name, args, kw):
        raise Unsupported("numpy.%s of the distances" % name)

    def m_attr(self, rt, name):
        if name == "size":
            return S(self.n)
        if name == "shape":
            return (S(self.n),)
        raise Unsupported("attribute %s of the distances" % name)

    def m_havoc(self, rt, name):
        return any_levels(name)


class AnyLevels(Levels):
    """Any table; what is known of it is said by ascending and genuine (set when the class invariant is assumed)."""

    def __init__(self, name):
        c = Ctx.cur
        n, self.U = z3.Int(c.name(name + "_n")), z3.Function(c.name(name), I, R)
        w = z3.Function(c.name("position"), *([I] * (2 + geometry().t) + [I]))
        c.assume(n >= 0)
        self.ascending = self.genuine = False
        self.read = []
        Levels.__init__(self, n, self.entry, lambda g, k, e, m: [w(k, e, *m)])

    def entry(self, j):
        U, M, c = self.U, self.n, Ctx.cur
        j = z3.simplify(j)
        if not any(x.eq(j) for x in self.read):
            self.read.append(j)
        if self.genuine:
            c.assume(Implies(And(j >= 0, j < M), c.data["level"](U(j))))
        if self.ascending:
            for i in self.read:
                if not i.eq(j):
                    c.assume(Implies(And(i >= 0, i < M, j >= 0, j < M), And(Implies(i < j, U(i) < U(j)), Implies(j < i, U(j) < U(i)))))
        return U(j)


def any_levels(name="levels"):
    return AnyLevels(name)


def cdist(rt, a, kw):
    if len(a) != 2 or kw:
        raise Unsupported("cdist with options")
    (n, ra), (m, rb) = rows(a[0]), rows(a[1])
    if n is None or m is None:
        raise Unsupported("cdist of %r" % (a,))
    g = geometry()
    memo = {}

    def at(i, j):
        key = (i.get_id(), j.get_id())
        if key not in memo:
            F = g.linear([arith("-", x, y) for x, y in zip(ra(S(i)), rb(S(j)))])
            if F is None:
                raise Unsupported("distances of vectors that are not sites")
            memo[key] = (F, i, j)
        r = g.distance(memo[key][0])
        if r is None:
            raise Unsupported("distances of vectors that are not sites")
        return r
    return Dists(zi(n), zi(m), at)


def minimum(rt, a, kw):
    """The smallest entry of a vector; initial=inf is neutral."""
    x, init = a[0], kw.get("initial")
    if isinstance(x, np.ndarray) and x.ndim == 1 and x.size and isinstance(init, float) and init == float("inf"):
        return rt.np.namespace(rt, "numpy").attrs["min"].fn(rt, [x], {})
    return L.USES["np.min"](rt, a, kw)


# -- contracts of the helpers (proved by the tasks "sites considered" and "reach") -------------------
def sites_contract(rt, f, args, kw):
    c, g = Ctx.cur, geometry()
    env = rt.bind_args(f, args, kw).vars
    sc, half = env["scope"], env["no_inversion"]
    if not isinstance(half, bool):
        raise Unsupported("no_inversion = %r" % (half,))
    if not is_int(sc) or not (isinstance(sc, int) and sc >= 0 or isinstance(sc, S) and c.prove_now(zi(sc) >= 0)):
        raise Unsupported("a scope that may be negative")
    s, n = zi(sc), zi(g.n)
    N = z3.Int(c.name("sites"))
    c.assume(N >= n)
    pt, ms = z3.Function(c.name("site_point"), I, I), [z3.Function(c.name("site_shift%d" % i), I, I) for i in range(g.t)]
    loc = z3.Function(c.name("site_row"), *([I] * (1 + g.t) + [I]))
    within = lambda m: And([And(-s <= x, x <= s) for x in m])

    def form(k):
        m = [f(k) for f in ms]
        Ctx.cur.assume(Implies(And(k >= 0, k < N), And([pt(k) >= 0, pt(k) < n, within(m), (k < n) == And([x == 0 for x in m]), Implies(k < n, pt(k) == k),
                                                        loc(pt(k), *m) == k])))
        return pt(k), m

    def site(e, m):
        """Rows that may hold point e displaced by m."""
        vs = [m, [z3.simplify(-x) for x in m]] if half else [m]
        hits, out = [], []
        for v in vs:
            k = loc(e, *v)
            form(k)
            out.append(k)
            hits.append(And([k >= 0, k < N, pt(k) == e] + [f(k) == x for f, x in zip(ms, v)]))
        ok = And(e >= 0, e < n, within(m))
        zero = And([x == 0 for x in m])
        Ctx.cur.assume(Implies(ok, And(Or(hits), Implies(And(hits), zero)) if half else hits[0]))
        return out
    site.listed = lambda e, v: (loc(e, *v), And([loc(e, *v) >= 0, loc(e, *v) < N, pt(loc(e, *v)) == e] + [f(loc(e, *v)) == x for f, x in zip(ms, v)]))
    site.within, site.form, site.half, site.N = within, form, half, N
    c.data.setdefault("sites", []).append(site)
    V = g.V

    def at(j):
        p, m = form(zi(j[0]))
        q = conc(j[1])
        if not isinstance(q, int):
            raise Unsupported("a symbolic column of the sites")
        return S(g.P(p, z3.IntVal(q)) + z3.Sum([z3.ToReal(x) * zr(V[i, q]) for i, x in enumerate(m)]))
    r = SArr((S(N), g.d), at, "r")
    r.site = site
    return r


def scope_contract(rt, f, args, kw):
    """Pairs within the distance differ by a translation in the scope."""
    c, g = Ctx.cur, geometry()
    r = [v for n, v in rt.bind_args(f, args, kw).vars.items() if n != "self"][0]
    s = z3.Int(c.name("scope"))
    c.assume(s >= 0)
    if not is_num(r):
        raise Unsupported("a distance %r" % (r,))
    d = zr(r) + z3.RealVal("1/20000") if c.data.get("slack") else zr(r)
    for k, e, m in c.data.get("pairs", []):
        G = g.length(k, e, m)
        c.assume(Implies(And(k >= 0, k < zi(g.n), e >= 0, e < zi(g.n), G <= d), And([And(-s <= x, x <= s) for x in m])))
    return S(s)


HOOKS = {**USES, "new-set": new_set, "set": to_set, "itertools.product": product, "np.reshape": reshape, "scipy.cdist": cdist, "np.min": minimum, "np.amin": minimum}


# -- bonds ---------------------------------------------------------------------------------------
class Pairs:
    """A set of pairs of rows i < j where a condition holds."""
    model = True
    mutable = True
    pytype = set

    def __init__(self, n=None, cond=None):
        self.n, self.cond = n, cond

    def m_attr(self, rt, name):
        if name in ("difference", "intersection", "union", "copy"):
            return Native(name, lambda r, a, k: self.combine(name, a))
        raise Unsupported("set.%s of pairs" % name)

    def combine(self, name, others):
        r = Pairs(self.n, self.cond)
        for o in others:
            if not isinstance(o, Pairs):
                raise Unsupported("%s of pairs and %r" % (name, o))
            if r.n is not None and o.n is not None and r.n is not o.n:
                raise Unsupported("pairs of rows of different trees")
            f, g = r.cond, o.cond
            if name == "difference":
                h = f if f is None or g is None else lambda i, j, f=f, g=g: And(f(i, j), Not(g(i, j)))
            elif name == "union":
                h = g if f is None else f if g is None else lambda i, j, f=f, g=g: Or(f(i, j), g(i, j))
            else:
                h = None if f is None or g is None else lambda i, j, f=f, g=g: And(f(i, j), g(i, j))
            r = Pairs(r.n if r.n is not None else o.n, h)
        return r

    def m_binop(self, rt, op, o, left):
        if isinstance(o, Pairs) and op in ("-", "&", "|"):
            x, y = (self, o) if left else (o, self)
            return x.combine({"-": "difference", "&": "intersection", "|": "union"}[op], [y])
        return NotImplemented

    def m_snapshot(self, rt):
        raise Unsupported("a set of pairs is built in a loop")

    def sym_iter(self, rt):
        """Every member once, in any order."""
        if self.cond is None:
            return SSeq(0, lambda k: None, tuple)
        c = Ctx.cur
        N, a, b, pl = z3.Int(c.name("pairs")), z3.Function(c.name("pair0"), I, I), z3.Function(c.name("pair1"), I, I), z3.Function(c.name("pair_place"), I, I, I)
        c.assume(N >= 0)
        n, cond = self.n, self.cond

        def at(k):
            e = zi(k)
            x, y = a(e), b(e)
            Ctx.cur.assume(Implies(And(e >= 0, e < N), And(x >= 0, x < y, y < n, cond(x, y), pl(x, y) == e)))
            return (S(x), S(y))
        r = SSeq(S(N), at, tuple)

        def place(x, y):
            k = pl(x, y)
            Ctx.cur.assume(Implies(And(x >= 0, x < y, y < n, cond(x, y)), And(k >= 0, k < N, a(k) == x, b(k) == y)))
            return k
        r.place, r.N, r.of = place, N, self
        c.data.setdefault("families", []).append(r)
        return r


class PairTree(Tree):
    def m_attr(self, rt, name):
        if name == "query_pairs":
            return Native(name, self.query_pairs)
        return Tree.m_attr(self, rt, name)

    def query_pairs(self, rt, a, kw):
        r = kw.get("r", a[0] if a else None)
        if len(a) + len(kw) != 1 or not is_num(r):
            raise Unsupported("query_pairs with options")
        if isinstance(self.n, int):
            raise Unsupported("pairs of a fixed number of sites")
        g, d = geometry(), zr(r)

        def cond(i, j):
            G = g.distance(g.linear([arith("-", x, y) for x, y in zip(self.row(S(i)), self.row(S(j)))]))
            if G is None:
                raise Unsupported("distances of vectors that are not sites")
            return G <= d
        if "rows" not in Ctx.cur.data:
            Ctx.cur.data["rows"] = []
        for data, n in Ctx.cur.data["rows"]:
            if data is self.origin:
                return Pairs(n, cond)
        n = zi(self.n)
        Ctx.cur.data["rows"].append((self.origin, n))
        return Pairs(n, cond)


def tree(rt, a, kw):
    if len(a) != 1 or kw or not isinstance(a[0], SArr):
        return ckdtree(rt, a, kw)
    t = PairTree(rt, a[0])
    t.origin = a[0].store
    return t


class BondM:
    """Contract of Bond (C11): it keeps its endpoints and whether it is directed."""
    model = True

    def __init__(self, forms, directional):
        self.forms, self.directional = forms, directional


def bond(rt, f, args, kw):
    c, g = Ctx.cur, geometry()
    p0, p1 = args[:2]
    directional = kw.get("directional", True)
    if len(args) != 2 or set(kw) - {"directional"} or not isinstance(directional, bool):
        raise Unsupported("a bond %r" % (args,))
    forms = []
    for p in (p0, p1):
        v = sarr.as_sarr(rt, p)
        if v.ndim != 1 or conc(v.shape[0]) != g.d:
            raise PyRaise(AssertionError("shape"))
        F = g.linear([zr(v.get((q,))) for q in range(g.d)])
        if F is None or F.sites or len(F.pts) != 1 or F.pts[0][0] != 1:
            raise Unsupported("a bond whose endpoints are not sites")
        forms.append((F.pts[0][1], [zi(x) for x in F.m]))
    return BondM(forms, directional)


class Log:
    """A list that grows in a loop: what the ghost iteration added to it."""
    model = True
    mutable = True
    pytype = list

    def __init__(self, t):
        self.t = t
        self.count = z3.IntVal(0)
        self.content = [z3.IntVal(0)] * (2 + 2 * t)
        self.outside = z3.IntVal(0)          # appended outside of loops

    def m_attr(self, rt, name):
        if name == "append":
            return Native(name, self.append)
        raise Unsupported("list.%s of bonds" % name)

    def append(self, rt, a, k):
        c = Ctx.cur
        b = a[0]
        if not isinstance(b, BondM) or len(c.loops) != 1:
            raise Unsupported("a list of bonds that grows in another way")
        rt.ver.note_write(self, None)
        now = zi(c.loops[-1].k) == c.data["iteration"]
        (k0, m0), (k1, m1) = b.forms
        self.content = [z3.If(now, x, y) for x, y in zip([k0] + m0 + [k1] + m1, self.content)]
        self.count = z3.If(now, self.count + 1, self.count)
        if not b.directional:
            raise Unsupported("an undirected bond")

    def m_len(self, rt):
        raise Unsupported("number of bonds")

    def m_snapshot(self, rt):
        return None

    def m_heap_havoc(self, rt, snap):
        c = Ctx.cur
        self.count = z3.Int(c.name("count"))
        self.content = [z3.Int(c.name("content%d" % q)) for q in range(2 + 2 * self.t)]


def decompose_contract(rt, f, args, kw):
    """Contract of decompose (C13)."""
    g = geometry()
    v = [x for n, x in rt.bind_args(f, args, kw).vars.items() if n != "self"][0]
    a = sarr.as_sarr(rt, v)
    F = g.linear([zr(a.get((q,))) for q in range(g.d)])
    if F is None or F.sites or len(F.pts) != 1 or F.pts[0][0] != 1:
        raise Unsupported("decompose of something that is not known to be a site")
    e = F.pts[0][1]
    if not Ctx.cur.prove_now(And(e >= 0, e < zi(g.n))):
        raise Unsupported("decompose of something that is not known to be a site")
    w, u = np.empty((g.d,), dtype=object), np.empty((g.d,), dtype=object)
    for q in range(g.d):
        w[q] = S(g.P(e, z3.IntVal(q)))
        u[q] = S(z3.Sum([z3.ToReal(zi(x)) * zr(g.V[i, q]) for i, x in enumerate(F.m)]))
    return (w, u)


class Enumeration:
    """Contract of neighbor_distance: D(n) is the n-th level, and every level up to it is one of D(0) .. D(n)."""

    def __init__(self, g):
        c = Ctx.cur
        self.g, self.D, self.terms = g, z3.Function(c.name("D"), I, R), []
        self.J = z3.Function(c.name("which_level"), *([I] * (2 + g.t) + [I]))
        self.Q = z3.Function(c.name("units"), I, I)
        self.at(z3.IntVal(0))
        c.assume(self.D(z3.IntVal(0)) == 0)

    def at(self, n):
        c, g = Ctx.cur, self.g
        n = z3.simplify(n)
        if not any(x.eq(n) for x in self.terms):
            self.terms.append(n)
        D, Q = self.D, self.Q
        c.assume(Implies(n >= 0, And(ZOOM * D(n) == z3.ToReal(Q(n)), Q(n) >= 0)))
        for i in self.terms:
            if not i.eq(n):
                c.assume(Implies(And(i >= 0, n >= 0), And(Implies(i < n, Q(i) < Q(n)), Implies(n < i, Q(n) < Q(i)), Implies(n == i, Q(n) == Q(i)))))
        return D(n)

    def level(self, k, e, m):
        """Facts of a pair: its place in the enumeration, the separation of levels."""
        c, g = Ctx.cur, self.g
        lv = level_of(g, k, e, m)
        rng = And(k >= 0, k < zi(g.n), e >= 0, e < zi(g.n))
        j = self.J(k, e, *m)
        known = list(self.terms)
        self.at(j)
        for n in known:
            if n.eq(z3.simplify(j)):
                continue
            c.assume(Implies(And(rng, n >= 0, lv <= self.Q(n)), And(j >= 0, j <= n, self.Q(j) == lv)))
            # precondition of bonds: different distances differ by more than the precision
            c.assume(Implies(And(rng, n >= 0, lv != self.Q(n)), Or(lv >= self.Q(n) + 2, lv <= self.Q(n) - 2)))
        return lv


def distance_contract(rt, f, args, kw):
    n = rt.bind_args(f, args, kw).vars["nth"]
    if not is_int(n) or not Ctx.cur.prove_now(zi(n) >= 0):
        raise Unsupported("a distance number that may be negative")
    return S(Ctx.cur.data["enumeration"].at(zi(n)))
