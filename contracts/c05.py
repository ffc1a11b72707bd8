"""C05: Hilbert-space bases, for any number of subspaces with any states below 64."""
from .base import *
from pyvc.seqs import SSeq, SList, SRange, SIter, StarArgs, proto
from pyvc.sarr import SArr, conc
from pyvc.sym import pow2, power

HS = "HamiltonianPy.hilbertspace"
I, B, W64 = z3.IntSort(), z3.BoolSort(), z3.BitVecSort(64)
ZERO = z3.BitVecVal(0, 64)
SM = z3.Function("states_mask", I, W64)       # the states of subspace t, as a 64-bit set
SIZE = z3.Function("number_of_states", I, I)
POS = z3.Function("state", I, I, I)           # state number j of subspace t
NUM = z3.Function("required_particles", I, I)
PC = z3.Function("particles", W64, I)         # number of states in a set
POSOF = z3.Function("state_of_set", W64, I, I)
ALL = z3.BitVec("all_states", 64)
TRUST = ["itertools.combinations/chain/product enumerate every member of the described families exactly once (for distinct states)",
         "the sum of 1 << s over the distinct states of a set is the bit pattern of the set; a union of pairwise disjoint sets is determined by its parts",
         "sorted order: list.sort returns the ascending permutation", "states below 64 (64-bit occupation numbers)", "np.array(..., dtype=uint64) of integers below 2**64 is exact"]


def allowed(t, x):
    """x is a set of states of subspace t with the required number of particles."""
    return And(x & ~SM(t) == 0, Or(NUM(t) < 0, PC(x) == NUM(t)))


def size_facts(t, x):
    Ctx.cur.assume(Implies(x & ~SM(t) == 0, And(PC(x) >= 0, PC(x) <= SIZE(t))))


class Elem:
    """A set of states (one combination), iterated as its states."""
    model = True
    pytype = tuple

    def __init__(self, mask):
        self.mask = mask

    def sym_iter(self, rt):
        m = self.mask
        Ctx.cur.assume(PC(m) >= 0)

        def at(j):
            Ctx.cur.assume(POSOF(m, zi(j)) >= 0)
            return S(POSOF(m, zi(j)))
        return SSeq(S(PC(m)), at, tuple)

    def m_len(self, rt):
        return S(PC(self.mask))


class Fam:
    """A family of sets of states, each exactly once, in some order."""
    model = True
    pytype = object

    def __init__(self, member, parts=None):
        self.member = member       # mask -> formula
        self.parts = parts         # K for a product over the subspaces
        self.n = None

    def enumerate_(self):
        if self.n is not None:
            return
        c = Ctx.cur
        self.n = fresh("i", "count")
        c.assume(self.n.e >= 0)
        self.E = z3.Function(c.name("member"), I, W64)
        self.RK = z3.Function(c.name("rank"), W64, I)
        c.data.setdefault("families", []).append(self)

    def at(self, k):
        c = Ctx.cur
        k = zi(k)
        x = self.E(k)
        ok = And(k >= 0, k < self.n.e)
        if self.parts is None:
            c.assume(Implies(ok, And(self.member(x), self.RK(x) == k)))
        else:
            t = c.data["t"]
            c.assume(Implies(ok, And(x & ~ALL == 0, self.RK(x) == k)))
            c.assume(Implies(And(ok, t >= 0, t < zi(self.parts)), self.member(t, x & SM(t))))
        return x

    def cover(self, x):
        """Position of the member x, if it is one (subspace positions to be checked are returned)."""
        c = Ctx.cur
        r = self.RK(x)
        found = And(r >= 0, r < self.n.e, self.E(r) == x)
        if self.parts is None:
            c.assume(Implies(self.member(x), found))
            return r, []
        t = fresh("i", "part").e
        c.assume(Implies(x & ~ALL == 0, Or(found, And(t >= 0, t < zi(self.parts), Not(self.member(t, x & SM(t)))))))
        return r, [t]

    def sym_iter(self, rt):
        self.enumerate_()
        if self.parts is None:
            return SSeq(self.n, lambda k: Elem(self.at(k)), tuple)
        return SSeq(self.n, lambda k: Parts(self.at(k), self.parts), tuple)

    def m_ite(self, c, o):
        if not isinstance(o, Fam) or self.parts is not None or o.parts is not None:
            raise Unsupported("cannot merge these families")
        return Fam(lambda x: If(c, self.member(x), o.member(x)))


class Parts:
    """One element of the product: a set of states for every subspace."""
    model = True
    pytype = tuple

    def __init__(self, mask, K):
        self.mask, self.K = mask, K

    def sym_iter(self, rt):
        return SSeq(self.K, lambda q: Elem(self.mask & SM(zi(q))), tuple)

    def m_len(self, rt):
        return self.K


def H_():
    c = Ctx.cur
    return H(c.ver.rt, c)


def space_of(rt, it):
    """The subspace whose states a sequence lists."""
    c, h = Ctx.cur, H_()
    p = proto(rt, it)
    if p is None:
        raise Unsupported("states that are not a symbolic sequence")
    n = p.length(rt)
    t = None
    if isinstance(n, S) and z3.is_app(n.e) and n.e.decl().eq(SIZE):
        t = n.e.arg(0)
    else:
        for s in c.data["spaces"]:
            if c.prove_now(eqz(n, S(SIZE(s)))):
                t = s
                break
    if t is None:
        raise Unsupported("a sequence of unknown length")
    j = fresh("i", "j")
    c.data.setdefault("pos", []).append((t, j))
    v = p.at(rt, j)
    if not is_num(v):
        raise Unsupported("states that are not numbers")
    h.ensure("the states used are those of the subspace", Implies(And(j.e >= 0, lt(j, n)), eqz(v, S(POS(t, j.e)))))
    return t


def combos(rt, it, r):
    c = Ctx.cur
    p = proto(rt, it)
    if isinstance(r, int) and r == 2 and p is not None and not is_num(p.at(rt, fresh("i", "j"))):
        return pairs(rt, p)
    t = space_of(rt, it)
    r = zi(r)
    return Fam(lambda x: And(x & ~SM(t) == 0, PC(x) == r))


def pairs(rt, p):
    """combinations(seq, 2): all (seq[i], seq[j]) with i < j."""
    c = Ctx.cur
    n = zi(p.length(rt))
    m = fresh("i", "pairs")
    c.assume(m.e >= 0)
    f, g, rk = z3.Function(c.name("first"), I, I), z3.Function(c.name("second"), I, I), z3.Function(c.name("pair"), I, I, I)
    ok = lambda q: And(q >= 0, q < m.e)

    def at(k):
        k = zi(k)
        Ctx.cur.assume(Implies(ok(k), And(f(k) >= 0, f(k) < g(k), g(k) < n)))
        return p.at(rt, S(f(k))), p.at(rt, S(g(k)))

    def rank(i, j):
        """Position of the pair (i, j)."""
        Ctx.cur.assume(Implies(And(i >= 0, i < j, j < n), And(ok(rk(i, j)), f(rk(i, j)) == i, g(rk(i, j)) == j)))
        return rk(i, j)
    c.data["pairs"] = (rank, f, g)
    return SIter(SSeq(m, at, tuple))


def quant(rt, s, isall):
    """all()/any(): a truth value; where it is false (true), at some position; otherwise at none (used by instances)."""
    c = Ctx.cur
    if c.pure:
        return NotImplemented
    n = zi(s.length(rt))
    w = fresh("i", "position").e
    b = z3.Bool(c.name("all" if isall else "any"))
    v = lambda k: rt.as_bool_term(s.at(rt, S(k)))
    inside = lambda k: And(k >= 0, k < n)
    c.assume(Implies(Not(b) if isall else b, And(inside(w), Not(v(w)) if isall else v(w))))
    c.data.setdefault("quantified", []).append((w, lambda k: Implies(And(b if isall else Not(b), inside(k)), v(k) if isall else Not(v(k)))))
    return S(b)


def instantiate(i, j):
    """The facts known about the pair (i, j) of subspaces."""
    c = Ctx.cur
    if "pairs" in c.data:
        k = c.data["pairs"][0](i, j)
        for w, f in c.data.get("quantified", []):
            c.assume(f(k))


def chain(rt, a):
    c, h = Ctx.cur, H_()
    if len(a) == 1 and isinstance(a[0], StarArgs):
        seq = a[0].seq
    elif not any(isinstance(x, StarArgs) for x in a) and all(isinstance(x, (Fam, Elem)) for x in a):
        xs = list(a)
        if all(isinstance(x, Fam) for x in xs):
            for i in range(len(xs)):
                for j in range(i):
                    x = z3.BitVec(c.name("x"), 64)
                    h.ensure("chained families have no common member", Not(And(xs[i].member(x), xs[j].member(x))))
            return Fam(lambda x: Or([f.member(x) for f in xs] + [z3.BoolVal(False)]))
        raise Unsupported("chain")
    else:
        raise Unsupported("chain of this form")
    n = seq.length(rt)
    k = fresh("i", "k")
    inside = And(k.e >= 0, lt(k, n))
    e = seq.at(rt, k)
    if isinstance(e, Elem):
        # the parts of one product element: their union
        m = e.mask
        if not (m.num_args() == 2 and eqz(n, S(zi(c.data["K"]))) is not None and c.prove_now(eqz(n, S(zi(c.data["K"]))))):
            raise Unsupported("union of sets of another kind")
        w = [x for x in (m.arg(0), m.arg(1)) if not (z3.is_app(x) and x.decl().eq(SM))]
        if len(w) != 1 or not c.prove_now(Implies(inside, m == (w[0] & SM(k.e)))):
            raise Unsupported("union of sets of another kind")
        return Elem(w[0])
    if isinstance(e, Fam) and e.parts is None:
        k2 = fresh("i", "k2")
        x = z3.BitVec(c.name("x"), 64)
        e2 = seq.at(rt, k2)
        h.ensure("chained families have no common member", Implies(And(inside, k2.e >= 0, lt(k2, n), k.e != k2.e), Not(And(e.member(x), e2.member(x)))))

        def member(x):
            q = z3.Int("q")
            cc = Ctx.cur
            cc.pure += 1
            try:
                f = seq.at(rt, S(q)).member(x)
            finally:
                cc.pure -= 1
            return z3.Exists([q], And(q >= 0, q < zi(n), f))
        return Fam(member)
    raise Unsupported("chain of %r" % (e,))


def product(rt, a, rep):
    c, h = Ctx.cur, H_()
    if not (len(a) == 1 and isinstance(a[0], StarArgs) and isinstance(rep, int) and rep == 1):
        raise Unsupported("product of this form")
    seq = a[0].seq
    K = seq.length(rt)
    h.ensure("one family for every subspace", eqz(K, S(zi(c.data["K"]))))
    i, j = fresh("i", "i").e, fresh("i", "j").e
    instantiate(i, j)
    h.ensure("the subspaces are disjoint", Implies(And(i >= 0, i < j, j < zi(K)), SM(i) & SM(j) == 0))
    t = fresh("i", "t")
    f = seq.at(rt, t)
    if not isinstance(f, Fam) or f.parts is not None:
        raise Unsupported("product of other things")
    x = z3.BitVec(c.name("x"), 64)
    h.ensure("the family of a subspace uses its own states", Implies(And(t.e >= 0, t.e < zi(K), f.member(x)), x & ~SM(t.e) == 0))
    return Fam(lambda t, x: seq.at(rt, S(t)).member(x), K)


def total(rt, s, start):
    """sum of 1 << state over the states of a set."""
    c, h = Ctx.cur, H_()
    n = s.length(rt)
    if not (isinstance(n, S) and z3.is_app(n.e) and n.e.decl().eq(PC)) or not (isinstance(start, int) and start == 0):
        raise Unsupported("sum over another sequence")
    m = n.e.arg(0)
    j = fresh("i", "j")
    v = s.at(rt, j)
    p = POSOF(m, j.e)
    two = power(2, S(p))
    c.assume(Implies(p >= 0, eqz(two, S(pow2(p)))))
    h.ensure("the bit of every state is 1 << state", Implies(And(j.e >= 0, lt(j, n)), eqz(v, S(pow2(p)))))
    return S(m)


class Sorted:
    def __init__(self, n, fn, down):
        c = Ctx.cur
        self.n, self.fn, self.down = n, fn, down
        self.P, self.Q = z3.Function(c.name("perm"), I, I), z3.Function(c.name("inverse"), I, I)
        self.seen = []
        c.data.setdefault("sorted", []).append(self)

    def at(self, k):
        c = Ctx.cur
        k = zi(k)
        ok = lambda q: And(q >= 0, q < zi(self.n))
        c.assume(Implies(ok(k), And(ok(self.P(k)), self.Q(self.P(k)) == k)))
        v = zbv(self.fn(S(self.P(k))))
        for q, u in self.seen:
            lo, hi = (z3.ULE(u, v), z3.ULE(v, u)) if not self.down else (z3.ULE(v, u), z3.ULE(u, v))
            c.assume(And(Implies(And(ok(q), ok(k), q < k), lo), Implies(And(ok(q), ok(k), k < q), hi)))
        self.seen.append((k, v))
        return S(v)

    def find(self, i):
        c = Ctx.cur
        c.assume(Implies(And(i >= 0, i < zi(self.n)), And(self.Q(i) >= 0, self.Q(i) < zi(self.n), self.P(self.Q(i)) == i)))
        return self.Q(i)


def ordering(rt, n, fn, key, reverse):
    if key is not None:
        raise Unsupported("sort with a key")
    return Sorted(n, fn, rt.truth(reverse))


def list_sort(rt, o, a, k):
    rt.ver.note_write(o, None)
    s = ordering(rt, o.n, o.fn, k.get("key"), k.get("reverse", False))
    o.fn = s.at
    return None


def sorted_hook(rt, s, key, reverse):
    o = ordering(rt, s.length(rt), lambda k: s.at(rt, k), key, reverse)
    return SList(s.length(rt), o.at)


def np_sort(rt, a, k):
    if len(a) == 1 and isinstance(a[0], SArr) and a[0].ndim == 1 and a[0].kind == "v":
        rd = a[0].reader()
        o = ordering(rt, a[0].shape[0], lambda q: rd((q,)), None, False)
        return SArr(a[0].shape, lambda j: o.at(j[0]), "v")
    return NotImplemented


class StateSet:
    model = True
    pytype = set

    def __init__(self, t):
        self.t = t

    def m_attr(self, rt, name):
        if name == "isdisjoint":
            return Native(name, lambda r, a, k: S(SM(self.t) & SM(other(rt, a[0])) == 0))
        if name in ("intersection", "union"):
            raise Unsupported("set of states.%s" % name)
        raise Unsupported("attribute %s of a set" % name)

    def m_binop(self, rt, op, o, left):
        if op == "&" and isinstance(o, StateSet):
            return Meet(self.t, o.t)
        return NotImplemented

    def m_len(self, rt):
        return S(SIZE(self.t))


class Meet:
    model = True
    pytype = set

    def __init__(self, t, u):
        self.t, self.u = t, u

    def m_truth(self, rt):
        return S(SM(self.t) & SM(self.u) != 0)


def other(rt, x):
    return x.t if isinstance(x, StateSet) else space_of(rt, x)


def set_hook(rt, s):
    return StateSet(space_of(rt, s))


USES = {"itertools.combinations": combos, "itertools.chain": chain, "itertools.product": product, "sum": total, "list-sort": list_sort,
        "sorted": sorted_hook, "np.sort": np_sort, "set": set_hook}


def check_basis(h, out, K, sort, container):
    """The result enumerates exactly the allowed patterns."""
    c = h.c
    want = {"list": list, "tuple": tuple, "array": np.ndarray}[container]
    if container == "array":
        ok = isinstance(out, SArr) and out.ndim == 1
        h.ensure("an array of unsigned 64-bit integers", z3.BoolVal(ok and out.kind == "v"))
        if not ok:
            raise PathEnd()
        n, at = out.shape[0], lambda k: zbv(out.get((k,)))
    else:
        ok = isinstance(out, (SList, SSeq)) and out.pytype is want
        h.ensure("a %s" % container, z3.BoolVal(ok))
        if not ok:
            raise PathEnd()
        n, at = out.n, lambda k: zbv(out.fn(k))
    t = c.data["t"]
    what = h.choose(["allowed", "once", "all"] + (["ascending"] if sort else []), "check")
    k, k2 = h.int("k"), h.int("k2")
    inside = lambda q: And(q.e >= 0, lt(q, n))
    if what == "all":
        x = z3.BitVec(c.name("pattern"), 64)
        h.requires(x & ~ALL == 0)
        hits = []
        for f in c.data.get("families", []):
            r, ts = f.cover(x)
            for q in ts + [z3.IntVal(0)]:
                size_facts(q, x & SM(q))
                if f.parts is None:
                    size_facts(q, x)
                c.assume(Implies(And(q >= 0, q < zi(K)), allowed(q, x & SM(q))))
            cands = [r] + [s.find(r) for s in c.data.get("sorted", [])]
            for p in cands:
                hits.append(And(p >= 0, p < zi(n), at(S(p)) == x))
        h.ensure("every allowed pattern is there", Or(hits + [z3.BoolVal(False)]))
        return
    h.requires(And(inside(k), inside(k2)))
    x, y = at(k), at(k2)
    if what == "allowed":
        h.requires(And(t >= 0, t < zi(K)))
        size_facts(t, x & SM(t))
        size_facts(t, x)
        h.ensure("only the specified states are occupied", x & ~ALL == 0)
        h.ensure("every subspace has its number of particles", allowed(t, x & SM(t)))
    elif what == "once":
        h.ensure("every pattern only once", Implies(k.e != k2.e, x != y))
    else:
        h.ensure("ascending", Implies(k.e < k2.e, z3.ULT(x, y)))


def spoil(h, r):
    """The caller overwrites a returned collection."""
    if isinstance(r, SArr) or isinstance(r, np.ndarray):
        h.rt.set_item(r, slice(None), 0)
    elif isinstance(r, SList) or isinstance(r, list):
        h.meth(r, "append", 5)
        h.rt.set_item(r, 0, 77)


def spaces(h, K):
    """K subspaces with valid specifiers."""
    c = h.c
    c.data["K"] = K
    c.data["t"] = h.int("t").e
    c.data["spaces"] = []

    def facts(t):
        c.assume(Implies(And(t >= 0, t < zi(K)), And(SIZE(t) > 0, NUM(t) <= SIZE(t), SM(t) & ~ALL == 0)))
    facts(c.data["t"])
    return facts


def tasks(isolation=False):
    """isolation: only the repeated queries of one object, the answer to the first overwritten by its caller (C22)."""
    out = []

    def T(name, fn, functions, uses=None, **kw):
        if isolation and name not in ("SimpleHilbertSpace: the basis", "HilbertSpace of any number of subspaces"):
            return
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [HS + "." + f for f in functions], modules=[HS], uses=dict(USES, **(uses or {})), assumes=TRUST, **kw))

    def states_arg(h, t, forms=("int", tuple, list, set)):
        c = h.c
        form = h.choose(list(forms), "states")
        if form == "int":
            n = h.int("N")
            h.requires(And(n.e > 0, SIZE(t) == n.e))
            q = z3.Int("q")
            c.assume(z3.ForAll([q], Implies(And(q >= 0, q < n.e), POS(t, q) == q), patterns=[POS(t, q)]))
            return form, n
        h.requires(SIZE(t) > 0)

        def at(j):
            c.assume(POS(t, zi(j)) >= 0)
            return S(POS(t, zi(j)))
        q = z3.Int("q")
        c.assume(z3.ForAll([q], POS(t, q) >= 0, patterns=[POS(t, q)]))
        n = S(SIZE(t))
        return form, (SList(n, at) if form is list else SSeq(n, at, form))

    def simple(h):
        cls = h.get(HS, "SimpleHilbertSpace")
        spaces(h, 1)
        c = h.c
        t0 = z3.IntVal(0)
        c.data["spaces"] = [t0]
        form, states = states_arg(h, t0)
        c.assume(And(SM(t0) == ALL))
        given = h.choose([True, False], "number")
        if given:
            num = h.int("M")
            h.requires(And(NUM(t0) == num.e, num.e <= SIZE(t0)))
            sp = h.call(cls, states, num)
        else:
            num = -1
            c.assume(NUM(t0) == -1)
            sp = h.call(cls, states)
        if isolation and form not in (tuple, "int"):
            raise PathEnd()
        w = h.choose(["again"] if isolation else ["attributes", "basis", "again"] if form in (tuple, "int") else ["basis"], "w")
        if w == "attributes":
            h.ensure_value("state_number", h.attr(sp, "state_number"), S(SIZE(t0)))
            h.ensure_value("particle_number", h.attr(sp, "particle_number"), num)
            space_of(h.rt, h.attr(sp, "single_particle_states"))
            return
        if w == "again":
            spoil(h, h.meth(sp, "base_vectors", container=h.choose(["array", "list"], "first")))
        container = h.choose(["array", "list", "tuple"] if w == "basis" and form is tuple else ["array"], "container")
        sort = h.choose([True, False], "sort")
        if w == "basis" and form is tuple and h.choose([False, True], "call"):
            r = h.call(sp, container=container, sort=sort)
        else:
            r = h.meth(sp, "base_vectors", container=container, sort=sort)
        check_basis(h, r, 1, sort, container)
    T("SimpleHilbertSpace: the basis", simple, ["SimpleHilbertSpace.__init__", "SimpleHilbertSpace.state_number", "SimpleHilbertSpace.particle_number", "SimpleHilbertSpace.single_particle_states", "SimpleHilbertSpace.base_vectors", "is_valid_states_collection"], max_paths=6000, budget=250)

    def reject_simple(h):
        cls = h.get(HS, "SimpleHilbertSpace")
        spaces(h, 1)
        c = h.c
        t0 = z3.IntVal(0)
        bad = h.choose(["too many particles", "no states", "negative state", "not positive", "not an integer", "float number", "other"], "bad")
        if bad == "too many particles":
            form, states = states_arg(h, t0)
            num = h.int("M")
            h.requires(num.e > SIZE(t0))
            o = h.outcome(lambda: h.call(cls, states, num))
        elif bad == "no states":
            o = h.outcome(lambda: h.call(cls, h.choose([(), [], set()], "empty")))
        elif bad == "negative state":
            n, p = h.int("n"), h.int("p")
            F = z3.Function("given", I, I)
            h.requires(And(p.e >= 0, p.e < n.e, F(p.e) < 0))
            at = lambda j: S(F(zi(j)))
            o = h.outcome(lambda: h.call(cls, h.choose([SSeq(n, at, tuple), SList(n, at), SSeq(n, at, set)], "form")))
        elif bad == "not positive":
            n = h.int("N")
            h.requires(n.e <= 0)
            o = h.outcome(lambda: h.call(cls, n))
        elif bad == "not an integer":
            n, p = h.int("n"), h.int("p")
            h.requires(n.e > 0)
            at = lambda j: h.rt.sym_index((S(z3.Function("g", I, z3.RealSort())(zi(j))),), 0)
            o = h.outcome(lambda: h.call(cls, SSeq(n, at, tuple)))
        elif bad == "float number":
            form, states = states_arg(h, t0)
            o = h.outcome(lambda: h.call(cls, states, h.real("M")))
        else:
            o = h.outcome(lambda: h.call(cls, h.choose([None, "ab", 1.5, h.real("x")], "value")))
        h.ensure_raises(bad + " raises ValueError", o, "ValueError")
    T("SimpleHilbertSpace: rejections", reject_simple, ["SimpleHilbertSpace.__init__", "is_valid_states_collection"])

    # -- specifiers
    def specifier(h, valid):
        """(specifier, states, number): a specifier of any form."""
        c = h.c
        t = z3.IntVal(0)
        c.data["spaces"] = [t]
        form = h.choose(["N", "N, M", "states, M"], "form")
        if form == "N":
            n = h.int("N")
            h.requires(And(n.e > 0 if valid else n.e <= 0, SIZE(t) == n.e, NUM(t) == -1))
            q = z3.Int("q")
            c.assume(z3.ForAll([q], Implies(And(q >= 0, q < n.e), POS(t, q) == q), patterns=[POS(t, q)]))
            return n
        num = h.int("M")
        h.requires(NUM(t) == num.e)
        if form == "N, M":
            _, s = states_arg(h, t, ("int",)) if valid else (None, h.int("N"))
            if not valid:
                h.requires(Or(s.e <= 0, num.e > s.e))
        else:
            why = h.choose(["too many", "negative"], "why") if not valid else None
            if why == "negative":
                n, p = h.int("n"), h.int("p")
                F = z3.Function("given", I, I)
                h.requires(And(p.e >= 0, p.e < n.e, F(p.e) < 0))
                at = lambda j: S(F(zi(j)))
                s = h.choose([SSeq(n, at, tuple), SList(n, at), SSeq(n, at, set)], "states")
            else:
                _, s = states_arg(h, t, (tuple, list, set))
                if why:
                    h.requires(num.e > SIZE(t))
        if valid:
            h.requires(num.e <= SIZE(t))
        return h.choose([tuple, list], "pair")([s, num])

    def preprocess(h):
        spaces(h, 1)
        valid = h.choose([True, False], "valid")
        sp = specifier(h, valid)
        o = h.outcome(h.get(HS, "subspace_specifier_preprocess"), sp)
        if not valid:
            h.ensure_raises("an invalid specifier raises ValueError", o, "ValueError")
            return
        r = h.ensure_ok("a valid specifier is accepted", o)
        if not (isinstance(r, tuple) and len(r) == 2):
            h.fail("standard form (states, number)")
            raise PathEnd()
        s = r[0]
        h.ensure("the states as a tuple", z3.BoolVal(getattr(s, "pytype", type(s)) is tuple))
        space_of(h.rt, s)
        h.ensure_value("number of states", h.rt.call(h.rt.builtins["len"], [s], {}) if hasattr(h.rt, "builtins") else s.n, S(SIZE(z3.IntVal(0))))
        h.ensure_value("number of particles", r[1], S(NUM(z3.IntVal(0))))
    T("subspace_specifier_preprocess", preprocess, ["subspace_specifier_preprocess", "is_valid_states_collection"], max_paths=3000)

    def wrong(h):
        bad = h.choose([None, "ab", 1.5, (), (3,), (3, 1, 1), (None, 1), ("ab", 1), ((), 0), ((), -1), (2.0, 1), ((1, 2.5), 1), {1: 2}, {1, 2}], "bad")
        h.ensure_raises("not a specifier: ValueError", h.outcome(h.get(HS, "subspace_specifier_preprocess"), bad), "ValueError")
    T("subspace_specifier_preprocess: other values", wrong, ["subspace_specifier_preprocess"])

    def predicate(h):
        spaces(h, 1)
        valid = h.choose([True, False], "valid")
        sp = specifier(h, valid)
        r = h.call(h.get(HS, "is_valid_subspace_specifier"), sp)
        h.ensure("is_valid_subspace_specifier", formula(r if isinstance(r, S) else bool(r)) == z3.BoolVal(valid))
    T("is_valid_subspace_specifier", predicate, ["is_valid_subspace_specifier"], max_paths=3000)

    # -- any number of subspaces, over the contract of the preprocessing
    class Spec_:
        model = True
        pytype = object

        def __init__(self, t):
            self.t = t

    def pre(rt, f, args, kw):
        x = args[0]
        if isinstance(x, tuple) and len(x) == 2 and getattr(x[0], "of_space", None) is not None and isinstance(x[1], S) and x[1].e.eq(NUM(x[0].of_space)):
            x = Spec_(x[0].of_space)      # already in standard form: it stays what it is
        if not isinstance(x, Spec_):
            from .strings import inline
            return inline(rt, f, args, kw)
        t = x.t
        c = Ctx.cur

        def at(j):
            return S(POS(t, zi(j)))
        c.data["facts"](t)
        states = SSeq(S(SIZE(t)), at, tuple)
        states.of_space = t
        return (states, S(NUM(t)))

    def many(which):
        def body(h):
            c = h.c
            K = h.int("K")
            h.requires(K.e >= 0)
            c.data["facts"] = spaces(h, K)
            specs = StarArgs(SSeq(K, lambda q: Spec_(zi(q)), tuple))
            container = h.choose(["array", "list", "tuple"], "container")
            sort = h.choose([True, False], "sort")
            if isolation and not (container == "array" and sort):
                raise PathEnd()
            if which == "HilbertSpace":
                cls = h.get(HS, "HilbertSpace")
                again = h.choose(["list", "array"] if isolation else [False, "list", "array"], "again") if container == "array" and sort else False

                def run():
                    s = h.rt.call(cls, [specs], {})
                    if again:
                        spoil(h, h.meth(s, "base_vectors", container=again))
                    return h.meth(s, "base_vectors", container=container, sort=sort)
            else:
                run = lambda: h.rt.call(h.get(HS, "base_vectors"), [specs], {"container": container, "sort": sort})
            o = h.outcome(run)
            if o[0] == "raise":
                h.ensure("only ValueError", z3.BoolVal(o[1] == "ValueError"))
                ws = [(f(w), g(w)) for _, f, g in [c.data[x] for x in ("pairs",) if x in c.data] for w, _ in c.data.get("quantified", [])]
                i, j = z3.Ints("i_ j_")
                hit = lambda i, j: And(i >= 0, i < j, j < K.e, SM(i) & SM(j) != 0)
                h.ensure("rejected only if two subspaces overlap", Or([hit(*w) for w in ws] or [z3.Exists([i, j], hit(i, j))]))
                return
            if h.choose([True, False], "overlap"):
                p, q = h.int("p").e, h.int("q").e
                h.requires(And(p >= 0, p < q, q < K.e))
                instantiate(p, q)
                h.ensure("overlapping subspaces are rejected", SM(p) & SM(q) == 0)
                return
            check_basis(h, o[1], K, sort, container)
        return body
    for w, fs in (("HilbertSpace", ["HilbertSpace.__init__", "HilbertSpace.base_vectors"]), ("base_vectors", ["base_vectors"])):
        T("%s of any number of subspaces" % w, many(w), fs, uses={HS + ".subspace_specifier_preprocess": pre, "quant": quant}, max_paths=6000, budget=250)
    return out
