"""C16: k-paths through any number of anchors."""
from .base import *
from pyvc import sarr
from pyvc.seqs import SSeq, SList, proto
from pyvc.sarr import SArr, conc, plus
from pyvc.sym import sort_of

LAT = "HamiltonianPy.lattice.lattice"
I, R = z3.IntSort(), z3.RealSort()
TRUST = ["np.concatenate lists the rows of its arguments in order; np.cumsum gives the partial sums; np.linspace(a, b, n, endpoint=False)[j] = a + (b - a) j / n",
         "two sums of the same terms are equal (uniqueness of partial sums)", "float rounding is not modelled"]


class Sums:
    """Partial sums of an integer sequence: OFF(0) = 0, OFF(i + 1) = OFF(i) + term(i)."""

    def __init__(self, n, term):
        self.n, self.term = n, term
        self.F = z3.Function(Ctx.cur.name("offset"), I, I)

    def at(self, i):
        c = Ctx.cur
        i = zi(i)
        c.assume(self.F(z3.IntVal(0)) == 0)
        c.assume(Implies(And(i >= 0, i < zi(self.n)), self.F(i + 1) == self.F(i) + zi(self.term(S(i)))))
        c.assume(Implies(And(i >= 1, i <= zi(self.n)), self.F(i) == self.F(i - 1) + zi(self.term(S(i - 1)))))
        return self.F(i)


def sums(n, term):
    """Partial sums; sequences that agree share them."""
    c = Ctx.cur
    for s in c.data.setdefault("sums", []):
        i = z3.Int(c.name("i"))
        c.pure += 1
        try:
            same = zi(s.term(S(i))) == zi(term(S(i)))
        finally:
            c.pure -= 1
        if c.prove_now(Implies(And(i >= 0, i < zi(n), i < zi(s.n)), same)):
            t = Sums(n, term)
            t.F = s.F
            return t
    t = Sums(n, term)
    c.data["sums"].append(t)
    return t


class Joined:
    """Rows of a sequence of two-dimensional arrays, one array after the other."""

    def __init__(self, n, part, cols):
        self.n, self.part, self.cols = n, part, cols
        c = Ctx.cur
        self.off = sums(n, lambda i: part(i).shape[0])
        self.placed = []
        self.any = z3.Function(c.name("entry"), I, I, R)

    def length(self):
        return S(self.off.at(self.n))

    def place(self, i, j):
        """Position of row j of part i."""
        c = Ctx.cur
        i, j = zi(i), zi(j)
        k = self.off.at(i) + j
        m = zi(self.part(S(i)).shape[0])
        self.placed.append((k, i, j, And(i >= 0, i < zi(self.n), j >= 0, j < m)))
        return k

    def element(self, k, q):
        k = zi(k)
        for e, i, j, ok in self.placed:
            if z3.eq(e, k):
                return S(z3.If(ok, zr(self.part(S(i)).get((S(j), q))), zr(self.any(k, zi(q)))))
        return S(self.any(k, zi(q)))

    def array(self):
        return SArr((self.length(), self.cols), lambda j: self.element(j[0], j[1]), "r")


def rows_of(rt, v):
    """(number, row -> one-dimensional array) of a sequence of one-dimensional arrays or a 2D array."""
    p = proto(rt, v)
    if p is None:
        if isinstance(v, (list, tuple)):
            return len(v), lambda k: v[conc(k)]
        if isinstance(v, SArr) and v.ndim == 2:
            return v.shape[0], lambda k: sarr.row_at(rt, v, k)
        raise Unsupported("rows of %r" % (v,))
    return p.length(rt), lambda k: p.at(rt, k)


def concatenate(rt, a, kw):
    c = Ctx.cur
    axis = kw.get("axis", a[1] if len(a) > 1 else 0)
    if axis != 0:
        raise Unsupported("concatenation along another axis")
    xs = a[0]
    if isinstance(xs, (list, tuple)):
        # a fixed number of blocks
        acc = None
        for x in xs:
            n, row = rows_of(rt, x)
            d = dim_of(row(fresh("i", "q")))
            part = lambda k, q, row=row: sarr.as_sarr(rt, row(k)).get((q,))
            if acc is None:
                acc = (n, d, part)
                continue
            n0, d0, p0 = acc
            if d != d0:
                raise PyRaise(ValueError("all the input array dimensions must match"))

            def both(k, q, n0=n0, p0=p0, part=part):
                x, y = p0(k, q), part(conc(arith("-", k, n0)), q)
                return ite(compare("<", k, n0), x, y)
            acc = (plus(n0, n), d, both)
        n, d, f = acc
        return SArr((n, d), lambda j: f(j[0], j[1]), "r")
    if isinstance(xs, SList):
        base = getattr(xs, "base", None)
        n, fn = base if base else (xs.n, xs.fn)
        tail = getattr(xs, "tail", [])
        m = plus(n, len(tail))

        def part(i):
            i = conc(i)
            r = None
            for q, t in enumerate(tail):
                e = z3.simplify(zi(i) == zi(n) + q)
                if z3.is_false(e):
                    continue
                t = two_d(rt, t)
                if z3.is_true(e):
                    return t
                r = r if r is not None else two_d(rt, fn(i))
                r = SArr((ite(e, t.shape[0], r.shape[0]), r.shape[1]), lambda j, r=r, t=t, e=e: ite(e, t.get(j), r.get(j)), "r")
            return r if r is not None else two_d(rt, fn(i))
        cols = two_d(rt, fn(fresh("i", "q"))).shape[1]
        J = Joined(m, part, cols)
        c.data.setdefault("joined", []).append(J)
        c.data["last joined"] = J
        out = J.array()
        out.joined = J
        return out
    return NotImplemented


def dim_of(x):
    if isinstance(x, (SArr, np.ndarray)) and len(x.shape) == 1 and isinstance(conc(x.shape[0]), int):
        return conc(x.shape[0])
    raise Unsupported("rows that are not vectors")


def two_d(rt, x):
    x = sarr.as_sarr(rt, x)
    if x.ndim != 2:
        raise PyRaise(ValueError("arrays must have the same number of dimensions"))
    return x


def append(rt, o, a, kw):
    rt.ver.note_write(o, None)
    if not hasattr(o, "base"):
        o.base, o.tail = (o.n, o.fn), []
    o.tail.append(a[0])
    o.n = plus(o.n, 1)
    n, fn, tail = o.base[0], o.base[1], list(o.tail)

    def at(k):
        for q, t in enumerate(tail):
            if Ctx.cur.prove_now(zi(k) == zi(n) + q):
                return t
        if all(is_num(t) for t in tail):
            r = fn(k)
            for q, t in enumerate(tail):
                r = ite(compare("==", k, plus(n, q)), t, r)
            return r
        if Ctx.cur.prove_now(zi(k) < zi(n)):
            return fn(k)
        raise Unsupported("element of a list of arrays")
    o.fn = at
    return None


def linspace(rt, a, kw):
    v = rt.bind_simple(a, kw, ["start", "stop", "num", "endpoint"], {"num": 50, "endpoint": True}) if hasattr(rt, "bind_simple") else None
    names = ["start", "stop", "num", "endpoint"]
    d = {"num": 50, "endpoint": True}
    d.update(zip(names, a))
    d.update(kw)
    if set(d) - set(names):
        raise Unsupported("linspace with other options")
    n = conc(d["num"])
    if isinstance(n, int) and not isinstance(d["start"], S):
        return NotImplemented
    if sort_of(z3.simplify(zi(n))) != "i" or isinstance(n, S) and sort_of(n.e) != "i":
        raise PyRaise(TypeError("linspace: num must be an integer"))
    e = zi(n)
    if not Ctx.cur.pure and rt.truth(S(e < 0)):
        raise PyRaise(ValueError("Number of samples must be non-negative"))
    end = rt.truth(d["endpoint"])
    div = e - 1 if end else e
    lo, hi = zr(d["start"]), zr(d["stop"])
    return SArr((n,), lambda j: S(lo + (hi - lo) * z3.ToReal(zi(j[0])) / z3.ToReal(div)), "r")


def cumsum(rt, a, kw):
    p = proto(rt, a[0])
    if p is None or len(a) > 1 or kw:
        return NotImplemented
    n = p.length(rt)
    s = sums(n, lambda i: p.at(rt, i))
    return SArr((n,), lambda j: S(s.at(zi(j[0]) + 1)), "i")


def norm(rt, a, kw):
    x = a[0]
    axis = kw.get("axis")
    if isinstance(x, SArr) and x.ndim == 2 and axis in (-1, 1) and isinstance(x.shape[1], int):
        m = x.shape[1]
        rd = x.reader()
        return SArr(x.shape[:1], lambda j: S(length_of([rd((j[0], q)) for q in range(m)])), "r")
    return NotImplemented


def length_of(ds):
    n = len(ds)
    F = z3.Function("length%d" % n, *([R] * (n + 1)))
    ds = [zr(d) for d in ds]
    Ctx.cur.assume(And(F(*ds) >= 0, Implies(And([d == 0 for d in ds]), F(*ds) == 0), Implies(F(*ds) == 0, And([d == 0 for d in ds]))))
    return F(*ds)


def minimum(rt, a, kw):
    x = a[0]
    if isinstance(x, SArr) and x.ndim == 1 and len(a) == 1 and not kw:
        c = Ctx.cur
        n = zi(x.shape[0])
        if not c.pure and rt.truth(S(n <= 0)):
            raise PyRaise(ValueError("zero-size array to reduction operation"))
        rd = x.reader()
        r, w = fresh("r", "min"), fresh("i", "argmin").e
        v = lambda i: zr(rd((S(i),)))
        c.assume(And(w >= 0, w < n, r.e == v(w)))
        for i in c.data.get("witnesses", []):
            c.assume(Implies(And(i >= 0, i < n), r.e <= v(i)))
        c.data.setdefault("minima", []).append(w)
        return r
    return NotImplemented


USES = {"np.min": minimum, "np.concatenate": concatenate, "np.linspace": linspace, "np.cumsum": cumsum, "np.norm": norm, "list-append": append}


def tasks():
    out = []

    def T(name, fn, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [LAT + ".KPath"], modules=[LAT], uses=USES, assumes=TRUST, **kw))

    class Anchors:
        def __init__(self, h):
            c = h.c
            self.d = d = h.choose([2, 3], "dimension")
            self.n = h.int("n")
            h.requires(self.n.e >= 2)
            self.X = [z3.Function("anchor_%s" % "xyz"[q], I, R) for q in range(d)]
            self.stores = []
            form = self.form = h.choose([list, tuple, "array"], "form")
            if form == "array":
                f = lambda j: self.coord(zi(j[0]), j[1])
                self.seq = SArr((self.n, d), f, "r")
                self.stores.append((self.seq.store, f))
            else:
                def at(k):
                    f = lambda j, k=k: self.coord(zi(k), j[0])
                    a = SArr((d,), f, "r")
                    self.stores.append((a.store, f))
                    return a
                self.seq = SList(self.n, at) if form is list else SSeq(self.n, at, tuple)
                self.given = (self.n, at)

        def coord(self, i, q):
            q = conc(q)
            if isinstance(q, int):
                return S(self.X[q](i))
            r = self.X[-1](i)
            for p in range(self.d - 2, -1, -1):
                r = z3.If(zi(q) == p, self.X[p](i), r)
            return S(r)

        def unchanged(self, h):
            ok = all(s.fn is f for s, f in self.stores)
            if isinstance(self.seq, SList):
                ok = ok and (self.seq.n, self.seq.fn) == self.given
            h.ensure("the anchors are not modified", z3.BoolVal(ok))

        def P(self, i):
            """Anchor visited at step i (the first again after the last)."""
            return [z3.If(i < self.n.e, X(i), X(i - self.n.e)) for X in self.X]

        def L(self, i):
            return length_of([b - a for a, b in zip(self.P(i), self.P(i + 1))])

    def call(h, A, loop, num):
        kw = {}
        if num is not None:
            kw["min_num"] = num
        how = h.choose((["indices", "points only", "defaults"] if loop else ["indices", "points only"]) if A.form is list else ["indices"], "return")
        if how != "defaults":
            kw["loop"] = loop
            kw["return_indices"] = how == "indices"
        return how, h.outcome(h.get(LAT, "KPath"), A.seq, **kw)

    def path(h):
        c = h.c
        A = Anchors(h)
        loop = h.choose([True, False], "loop")
        num = h.choose([h.int("min_num"), None], "min_num") if A.form is list else h.int("min_num")
        N = num.e if num is not None else z3.IntVal(100)
        h.requires(N >= 1)
        m = A.n.e if loop else A.n.e - 1          # number of segments
        i, w = h.int("i").e, h.int("shortest").e
        h.requires(And(i >= 0, i < m, w >= 0, w < m))
        c.assume(And(A.L(w) >= z3.RealVal("10001/100000000"), A.L(w) <= A.L(i)))
        c.data["witnesses"] = [i, w]
        how, o = call(h, A, loop, num)
        q = z3.Int("q")
        if "minima" in c.data:
            shortest = And([Implies(And(q >= 0, q < m), A.L(w) <= A.L(q)) for q in c.data["minima"]])
        else:
            shortest = z3.ForAll([q], Implies(And(q >= 0, q < m), A.L(w) <= A.L(q)))
        if o[0] == "raise":
            # a shorter segment than the shortest one would have been needed
            h.requires(shortest)
            h.ensure("no exception", z3.BoolVal(False))
            return
        r = o[1]
        A.unchanged(h)
        h.requires(shortest)
        if how == "points only":
            k = r
        else:
            if not (isinstance(r, tuple) and len(r) == 2):
                h.fail("points and indices")
                raise PathEnd()
            k, idx = r
        J = getattr(k, "joined", None)
        if J is None:
            raise Unsupported("k-points of another kind")
        s = zi(J.part(S(i)).shape[0])
        ratio = z3.ToReal(N) * A.L(i) / A.L(w)
        h.ensure("one array for every segment and one for the end", zi(J.n) == m + 1)
        h.ensure("steps: proportional, rounded down", And(z3.ToReal(s) > ratio - 1, z3.ToReal(s) <= ratio + z3.RealVal("1/1000000"), s >= 1))
        sw = zi(J.part(S(w)).shape[0])
        h.ensure("min_num steps on the shortest segment", sw == N)
        j = h.int("j").e
        inside = And(j >= 0, j < s)
        k0 = J.place(i, z3.IntVal(0))
        kj = J.place(i, j)
        ke = J.place(m, z3.IntVal(0))
        for q in range(A.d):
            a, b = A.P(i)[q], A.P(i + 1)[q]
            v = zr(k.get((S(kj), q)))
            t = z3.Real("t")
            h.ensure("equally spaced on the segment", Implies(And(inside, t * z3.ToReal(s) == z3.ToReal(j)), v == a + (b - a) * t))
            h.ensure("the anchors are visited", Implies(s >= 1, zr(k.get((S(k0), q))) == a))
            h.ensure("the last point", zr(k.get((S(ke), q))) == (A.P(m)[q] if not loop else A.P(z3.IntVal(0))[q]))
        h.ensure("nothing after the last point", zi(k.shape[0]) == ke + 1)
        if how != "points only":
            p = proto(h.rt, idx)
            if p is None:
                raise Unsupported("indices of another kind")
            h.ensure("a list of indices", z3.BoolVal(getattr(p, "pytype", None) is list))
            h.ensure("one index for every anchor visited", zi(p.length(h.rt)) == m + 1)
            h.ensure_value("position of the anchor", p.at(h.rt, S(i)), S(k0))
            h.ensure_value("position of the last anchor", p.at(h.rt, S(m)), S(ke))
    T("KPath: points and indices", path)

    def identical(h):
        A = Anchors(h)
        loop = h.choose([True, False], "loop")
        num = h.int("min_num")
        h.requires(num.e >= 1)
        m = A.n.e if loop else A.n.e - 1
        i = h.int("i").e
        h.requires(And([i >= 0, i < m] + [a == b for a, b in zip(A.P(i), A.P(i + 1))]))
        h.c.assume(A.L(i) == 0)
        h.c.data["witnesses"] = [i]
        how, o = call(h, A, loop, num)
        h.ensure_raises("identical adjacent anchors raise ValueError", o, "ValueError")
    T("KPath: identical anchors", identical)
    return out
