"""C20: Green functions as resolvent matrix elements, for any Hamiltonian, operators and frequencies."""
import itertools

from .base import *
from pyvc.hilbert import Vec, Op, MAP, RES, UNIT, IDENT, inner, identity as op_identity, vdot
from pyvc.sarr import SArr, conc
from pyvc.seqs import SSeq, SList
from pyvc.sym import cparts

GF = "HamiltonianPy.GreenFunction._GFSolver"
I, R = z3.IntSort(), z3.RealSort()
DAG = z3.Function("dagger", I, I)
EX = z3.Function("excited_state", I, I)
PM = z3.Function("projected_matrix", I, I)
PV = z3.Function("projected_vector", I, I, I)
PDIM = z3.Function("krylov_dimension", I, I)
START = (z3.Function("start_component_re", I, R), z3.Function("start_component_im", I, R))
FREQ = z3.Function("frequency", I, R)


class Key:
    """An operator, as far as these functions look at it."""
    model = True
    pytype = object

    def __init__(self, t):
        self.t = t

    def m_kind(self):
        return "opkey"

    def m_havoc(self, rt, name):
        return Key(fresh("i", name).e)

    def m_attr(self, rt, name):
        if name == "dagger":
            def dag(r, a, k):
                Ctx.cur.assume(DAG(DAG(self.t)) == self.t)
                return Key(DAG(self.t))
            return Native("dagger", dag)
        raise Unsupported("attribute %s of an operator" % name)

    def m_compare(self, rt, op, o):
        if op in ("==", "!=") and isinstance(o, Key):
            return S(self.t == o.t) if op == "==" else S(self.t != o.t)
        raise Unsupported("comparison of operators")


class Lookup:
    """A mapping whose values are given by the contract; reading only."""
    model = True
    pytype = dict

    def __init__(self, fn):
        self.fn = fn

    def m_get(self, rt, k):
        if not isinstance(k, Key):
            raise Unsupported("lookup of something else")
        return self.fn(k.t)

    def m_set(self, rt, k, v):
        H(rt, Ctx.cur).fail("the given mappings are not modified")
        return True

    def m_attr(self, rt, name):
        if name == "get":
            return Native("get", lambda r, a, k: self.m_get(r, a[0]))
        raise Unsupported("attribute %s of a mapping" % name)


class Row:
    """One row (all frequencies) of a batch, by its value at the ghost frequency; unknown if it is another row."""
    model = True
    pytype = np.ndarray

    def __init__(self, v):
        self.v = v

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-", "*", "/"):
            w = o.v if isinstance(o, Row) else o if is_num(o) else None
            if w is None:
                return NotImplemented
            return Row(rt.binop(op, self.v, w) if left else rt.binop(op, w, self.v))
        return NotImplemented

    def m_attr(self, rt, name):
        if name == "copy":
            return Native(name, lambda r, a, k: Row(self.v))
        raise Unsupported("attribute %s of a row" % name)

    def m_np(self, rt, name, args, kw):
        if name in ("array", "asarray", "copy"):
            return Row(self.v)
        return NotImplemented


class Batch:
    """A 3-d array, by its value at one arbitrary (ghost) position."""
    model = True
    mutable = True
    pytype = np.ndarray

    def __init__(self, ghost, v=None):
        self.ghost = tuple(ghost)
        self.v = v if v is not None else Cx(fresh("r", "garbage"), fresh("r", "garbage"))

    def m_kind(self):
        return "batch"

    def m_snapshot(self, rt):
        return self.v

    def m_heap_havoc(self, rt, snap):
        self.v = Cx(fresh("r", "entry"), fresh("r", "entry"))

    def m_havoc(self, rt, name):
        raise Unsupported("a loop rebinds a batch")

    def index(self, rt, i):
        i = i if isinstance(i, tuple) else (i,)
        out = []
        for x in i:
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step is None:
                    continue
                raise Unsupported("slice of a batch")
            if not is_num(x):
                raise Unsupported("index of a batch")
            out.append(x)
        # indices used are in range of the axis: loop counters of the same lengths
        return out, [eqz(a, b) for a, b in zip(out, self.ghost)]

    def m_get(self, rt, i):
        xs, es = self.index(rt, i)
        hit = S(And(es + [z3.BoolVal(True)]))
        other = Cx(fresh("r", "other"), fresh("r", "other"))
        v = ite(hit, self.v, other)
        if len(xs) == 2:
            return Row(v)
        if len(xs) == 3:
            return v
        raise Unsupported("part of a batch")

    def m_set(self, rt, i, v):
        rt.ver.note_write(self, None)
        xs, es = self.index(rt, i)
        hit = S(And(es + [z3.BoolVal(True)]))
        if len(xs) == 3 and is_num(v):
            self.v = ite(hit, tocx(v), self.v)
        elif len(xs) == 2 and isinstance(v, Row):
            self.v = ite(hit, tocx(v.v), self.v)
        else:
            raise Unsupported("assignment to a part of a batch")
        return True

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-") and isinstance(o, Batch) and len(o.ghost) == len(self.ghost) and all(a is b for a, b in zip(o.ghost, self.ghost)):
            return Batch(self.ghost, tocx(rt.binop(op, self.v, o.v) if left else rt.binop(op, o.v, self.v)))
        if op in ("*", "/") and is_num(o) and (left or op == "*"):
            return Batch(self.ghost, tocx(rt.binop(op, self.v, o)))
        return NotImplemented

    def m_attr(self, rt, name):
        if name in ("transpose", "swapaxes"):
            def tr(r, a, k):
                ax = list(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else list(a)
                if name == "swapaxes":
                    p = list(range(3))
                    p[ax[0]], p[ax[1]] = p[ax[1]], p[ax[0]]
                    ax = p
                return Batch([self.ghost[x] for x in (ax or [2, 1, 0])], self.v)
            return Native(name, tr)
        if name == "copy":
            return Native(name, lambda r, a, k: Batch(self.ghost, self.v))
        raise Unsupported("attribute %s of a batch" % name)

    def m_np(self, rt, name, args, kw):
        if name in ("empty_like", "zeros_like"):
            return Batch(self.ghost)
        if name in ("array", "copy"):
            return Batch(self.ghost, self.v)
        return NotImplemented


def tocx(v):
    return v if isinstance(v, Cx) else Cx(*cparts(v))


class Pairs:
    """A dict keyed by pairs of operators, by its value at the ghost pair."""
    model = True
    mutable = True
    pytype = dict

    def __init__(self):
        self.v = Cx(fresh("r", "missing"), fresh("r", "missing"))
        self.has = z3.BoolVal(False)

    def m_kind(self):
        return "pairs"

    def m_snapshot(self, rt):
        return (self.v, self.has)

    def m_heap_havoc(self, rt, snap):
        self.v = Cx(fresh("r", "entry"), fresh("r", "entry"))
        self.has = fresh("b", "has").e

    def m_set(self, rt, k, v):
        rt.ver.note_write(self, None)
        c = Ctx.cur
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, Key) for x in k) and isinstance(v, Row)):
            raise Unsupported("a dict of another kind")
        g = c.data["pair"]
        for x in k:
            for y in c.data["seqs"]:
                # different positions of one sequence hold different operators
                if z3.is_app(x.t) and x.t.decl().eq(y[1]):
                    c.assume((y[1](x.t.arg(0)) == y[1](y[2].e)) == (x.t.arg(0) == y[2].e))
        hit = And(k[0].t == g[0], k[1].t == g[1])
        self.v = ite(S(hit), tocx(v.v), self.v)
        self.has = Or(self.has, hit)
        return True


def axis_of(n):
    d = Ctx.cur.data
    if not isinstance(n, S):
        return None
    for i, m in enumerate(d["lens"]):
        if n.e.eq(m.e):
            return i
    return None


def done(st):
    """The ghost position comes before the current one in the order of the loops around."""
    c = Ctx.cur
    ghost = c.data["ghost"]
    order = [(axis_of(f.n), f.k) for f in c.loops if axis_of(f.n) is not None] + [(axis_of(st.loop.n), st.k)]
    f = z3.BoolVal(False)
    for ax, k in reversed(order):
        g = zi(ghost[ax])
        f = Or(g < zi(k), And(g == zi(k), f))
    return f


def entries(loop):
    c = Ctx.cur
    if axis_of(loop.n) is None:
        return []
    out = []
    for path, (o, snap) in loop.heap.items():
        if isinstance(o, (Batch, Pairs)):
            def ok(st, path=path):
                o = st.obj(path)
                w = c.data["want"]()
                return Implies(done(st), value_eq(c.ver.rt, o.v, w))
            out.append(("entries computed so far", ok))
        if isinstance(o, Pairs):
            out.append(("pairs stored so far", lambda st, path=path: Implies(done(st), st.obj(path).has)))
    return out


def tasks():
    out = []
    A0, B0 = z3.Function("A", I, I), z3.Function("B", I, I)

    def resolvent(h, w, hcode, sgn, a):
        """(w + sgn H)^-1 a as a vector."""
        p, q = cparts(w)
        p, q = mul(sgn, p), mul(sgn, q)
        return Vec([(RES(z3.simplify(zr(p), som=True), z3.simplify(zr(q), som=True), hcode, a), sgn)])

    def exact(h, z, GE, HMc, a, b, sign):
        """<GS|A M^-1 B|GS>, M = z + (H - E) or z - (H - E)."""
        s = 1 if sign == "+" else -1
        w = add(z, mul(-s, GE))
        # M = w + s H = s (s w + H)
        p, q = cparts(w)
        v = Vec([(RES(z3.simplify(zr(mul(s, p)), som=True), z3.simplify(zr(mul(s, q)), som=True), HMc, EX(b)), s)])
        return vdot(Vec([(EX(DAG(a)), 1)]), v)

    def lanczos(h, z, GE, a, b, sign):
        s = 1 if sign == "+" else -1
        p, q = cparts(add(z, mul(-s, GE)))
        start = Cx(S(START[0](b)), S(START[1](b)))
        r = RES(z3.simplify(zr(mul(s, p)), som=True), z3.simplify(zr(mul(s, q)), som=True), PM(b), UNIT)
        return vdot(Vec([(PV(b, DAG(a)), 1)]), Vec([(r, mul(s, start))]))

    def common(h):
        """GE, eta, a Hermitian HM and the mappings."""
        c = h.c
        n = h.int("dim")
        h.requires(n.e > 0)
        hm = z3.Int("H")
        d = dict(GE=h.real("GE"), eta=h.real("eta"), HM=Op([(hm, 1)], n), hm=hm, n=n,
                 excited=Lookup(lambda t: Vec([(EX(t), 1)], dim=n)))
        c.assume(And(inner(UNIT, UNIT).re.e == 1))

        def dim(b):
            c.assume(PDIM(b) > 0)
            return S(PDIM(b))
        d["pmats"] = Lookup(lambda b: Op([(PM(b), 1)], dim(b)))

        class Inner_(Lookup):
            def __init__(self, b):
                self.b = b

            def m_get(self, rt, k):
                if k.t.eq(self.b) or c.prove_now(k.t == self.b):
                    # C19: the start vector's own projection is a multiple of the first basis vector
                    return Vec([(UNIT, Cx(S(START[0](self.b)), S(START[1](self.b))))], dim=dim(self.b))
                c.assume(k.t != self.b) if False else None
                return Vec([(PV(self.b, k.t), 1)], dim=dim(self.b))
        d["pvecs"] = Lookup(lambda b: Inner_(b))
        return d

    def ident(rt, a, k):
        if isinstance(a[0], S):
            return op_identity(a[0])
        return NotImplemented
    LA = {"np.identity": ident, "np.eye": ident}
    ASM = ["numpy.linalg.solve(M, v) is M^-1 v for a regular matrix M, linear in v", "numpy.vdot is the inner product (conjugating its first argument)",
           "an operator and its conjugate differ in their projected vectors only by key"]

    def T(name, fn, functions, uses=None, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[GF], uses=dict(LA, **(uses or {})), assumes=ASM, invariants=entries, **kw))

    def single(name, kind, retarded):
        def body(h):
            d = common(h)
            om = h.real("omega")
            a, b = h.int("A").e, h.int("B").e
            sign = h.choose(["+", "-"], "sign")
            args = [om, Key(a), Key(b), d["GE"]] + ([d["HM"], d["excited"]] if kind == "Exact" else [d["pmats"], d["pvecs"]])
            kw = {"eta": d["eta"]}
            if h.choose([False, True], "default sign"):
                if sign == "-":
                    raise PathEnd()
            else:
                kw["sign"] = sign
            r = h.call(h.get(GF, name), *args, **kw)
            z = Cx(om, d["eta"])
            if kind == "Exact":
                g = lambda a_, b_, s: exact(h, z, d["GE"], d["hm"], a_, b_, s)
            else:
                g = lambda a_, b_, s: lanczos(h, z, d["GE"], a_, b_, s)
            if retarded:
                x, y = g(a, b, "-"), g(b, a, "+")
                want = add(x, y) if sign == "+" else sub(x, y)
            else:
                want = g(a, b, sign)
            h.ensure_value("the stated resolvent matrix element", r, want)
            h.ensure("the Hamiltonian is unchanged", z3.BoolVal(len(d["HM"].terms) == 1 and d["HM"].terms[0][1] == 1))
        uses = {}
        if retarded and kind == "Lanczos":
            uses = {}
        T(name, body, [GF + "." + name], uses)
    for kind in ("Exact", "Lanczos"):
        single("GFSolver%sSingle" % kind, kind, False)
        single("RGFSolver%sSingle" % kind, kind, True)

    def batch_setup(h):
        c = h.c
        nA, nB, nz = h.int("nA"), h.int("nB"), h.int("nz")
        h.requires(And(nA.e >= 0, nB.e >= 0, nz.e >= 0))
        a0, b0, z0 = h.int("a0"), h.int("b0"), h.int("z0")
        h.requires(And(a0.e >= 0, a0.e < nA.e, b0.e >= 0, b0.e < nB.e, z0.e >= 0, z0.e < nz.e))
        As = SList(nA, lambda k: Key(A0(zi(k))))
        Bs = SList(nB, lambda k: Key(B0(zi(k))))
        om = SArr([nz], lambda j: S(FREQ(zi(j[0]))), "r")
        c.data.update(lens=(nA, nB, nz), ghost=(a0, b0, z0), pair=(A0(a0.e), B0(b0.e)), seqs=[(As, A0, a0), (Bs, B0, b0)], om=om)
        return As, Bs, om

    def empty(rt, a, k):
        shape = a[0] if a else k.get("shape")
        if not isinstance(shape, (tuple, list)) or len(shape) != 3:
            return NotImplemented
        ghost = []
        for n in shape:
            ax = axis_of(n)
            if ax is None:
                return NotImplemented
            ghost.append(Ctx.cur.data["ghost"][ax])
        return Batch(ghost)

    def multiple(name, kind, retarded):
        def body(h):
            c = h.c
            d = common(h)
            As, Bs, om = batch_setup(h)
            c.data["common"] = d
            a0, b0, z0 = c.data["ghost"]
            sign = h.choose(["+", "-"], "sign")
            structure = h.choose(["array", "dict", None], "structure")
            z = Cx(S(FREQ(z0.e)), d["eta"])
            if kind == "Exact":
                g = lambda a_, b_, s: exact(h, z, d["GE"], d["hm"], a_, b_, s)
            else:
                g = lambda a_, b_, s: lanczos(h, z, d["GE"], a_, b_, s)

            def want():
                if not retarded:
                    return g(A0(a0.e), B0(b0.e), sign)
                x, y = g(A0(a0.e), B0(b0.e), "-"), g(B0(b0.e), A0(a0.e), "+")
                return add(x, y) if sign == "+" else sub(x, y)
            c.data["want"] = want
            c.data["g"] = g
            args = [om, As, Bs, d["GE"]] + ([d["HM"], d["excited"]] if kind == "Exact" else [d["pmats"], d["pvecs"]])
            kw = {"eta": d["eta"], "sign": sign}
            if structure is not None:
                kw["structure"] = structure
            r = h.call(h.get(GF, name), *args, **kw)
            if structure == "dict":
                if not isinstance(r, Pairs):
                    h.fail("a dict is returned")
                    raise PathEnd()
                h.ensure("every pair of operators has an entry", r.has)
            else:
                if not isinstance(r, Batch):
                    h.fail("an array is returned")
                    raise PathEnd()
                h.ensure("axes in the order A, B, omega", z3.BoolVal(len(r.ghost) == 3 and all(x is y for x, y in zip(r.ghost, (a0, b0, z0)))))
            h.ensure_value("every entry is the single Green function", r.v, want())
            h.ensure("the Hamiltonian is unchanged", z3.BoolVal(len(d["HM"].terms) == 1 and d["HM"].terms[0][1] == 1))
        uses = {"np.empty": empty, "np.zeros": empty, "new-dict": lambda rt: Pairs()}
        if retarded:
            def contract(rt, f, args, kw):
                c = Ctx.cur
                h = H(rt, c)
                e = rt.bind_args(f, list(args), kw).vars
                d = c.data["common"]
                sq = [next((s for s in c.data["seqs"] if s[0] is e[w]), None) for w in ("As", "Bs")]
                if None in sq or e["structure"] == "dict" or e["omegas"] is not c.data["om"]:
                    raise Unsupported("the batch is computed from other arguments")
                for n in (("HM", "excited_states") if kind == "Exact" else ("projected_matrices", "projected_vectors")):
                    w = {"HM": "HM", "excited_states": "excited", "projected_matrices": "pmats", "projected_vectors": "pvecs"}[n]
                    h.ensure("%s is handed on" % n, z3.BoolVal(e[n] is d[w]))
                h.ensure_value("the energy is handed on", e["GE"], d["GE"])
                h.ensure_value("the broadening is handed on", e["eta"], d["eta"])
                (s1, f1, g1), (s2, f2, g2) = sq
                return Batch([g1, g2, c.data["ghost"][2]], tocx(c.data["g"](f1(g1.e), f2(g2.e), e["sign"])))
            uses[GF + ".GFSolver%sMultiple" % kind] = contract
        T(name, body, [GF + "." + name], uses)
    for kind in ("Exact", "Lanczos"):
        multiple("GFSolver%sMultiple" % kind, kind, False)
        multiple("RGFSolver%sMultiple" % kind, kind, True)
    return out
