"""C08: spin matrices as ordered tensor products, for any number of spins.

A sparse matrix is modelled by its tensor layout: from the least significant digit of the row
and column numbers upwards, identity factors of a (symbolic) number of digits and 2x2 factors.
kron of layouts is concatenation, which is the definition of the Kronecker product for factors
whose dimensions are powers of two; identity(1 << e) is an identity factor of e digits.
"""
import itertools

from .base import *
from .c03 import coeffs
from .c07 import site
from .c09 import kept, coordinate_contract
from .strings import *
from pyvc.sym import _POW2

SS = "HamiltonianPy.quantumoperator.spinsystem"
CO = "HamiltonianPy.quantumoperator.constant"
OT = ("x", "y", "z", "p", "m")
IDX = z3.Function("site_index", I, I)            # of the k-th operator given
TYP = z3.Function("type_code", I, I)
SITE = z3.Function("site_operator", I, I, I)     # code of S_type at a site
DOT = z3.Function("matrix_product", I, I, I)
ONE = z3.Int("identity_matrix")


class OType:
    """The type letter of an operator, by code 0..4."""
    model = True
    pytype = str

    def __init__(self, t):
        self.t = t

    def m_compare(self, rt, op, o):
        if op not in ("==", "!=") and (isinstance(o, OType) or o in OT):
            rank = lambda t: If(t == 0, 2, If(t == 1, 3, If(t == 2, 4, If(t == 3, 1, 0))))
            return compare(op, S(rank(self.t)), S(rank(o.t if isinstance(o, OType) else z3.IntVal(OT.index(o)))))
        if op not in ("==", "!="):
            raise Unsupported("ordering of types")
        if isinstance(o, OType):
            e = self.t == o.t
        elif isinstance(o, str):
            e = self.t == OT.index(o) if o in OT else z3.BoolVal(False)
        else:
            return op == "!="
        return S(e if op == "==" else Not(e))


class Mat:
    """scalar * (layout or product code)."""
    model = True

    def __init__(self, scalar, segs=None, code_=None, note=None):
        self.scalar, self.segs, self.code = scalar, segs, code_

    pytype = object

    def m_kind(self):
        return "opmat"

    def m_havoc(self, rt, name):
        # the scalar may be anything of its kind
        s = Cx(fresh("r", name), fresh("r", name)) if isinstance(self.scalar, (Cx, complex)) else fresh("r", name)
        return Mat(s, None, fresh("i", name).e)

    def m_binop(self, rt, op, o, left):
        if op == "*" and is_num(o):
            return Mat(rt.binop("*", o, self.scalar), self.segs, self.code)
        if op == "/" and is_num(o) and left:
            return Mat(rt.binop("/", self.scalar, o), self.segs, self.code)
        if op in ("@", "*", "dot") and isinstance(o, Mat):
            a, b = (self, o) if left else (o, self)
            return dot(a, b)
        return NotImplemented

    def m_attr(self, rt, name):
        if name == "dot":
            return Native("dot", lambda r, a, k: dot(self, a[0]))
        if name in ("tocsr", "copy", "asformat"):
            return Native(name, lambda r, a, k: self)
        raise Unsupported("attribute %s of a sparse matrix" % name)


def dot(a, b):
    if not (isinstance(a, Mat) and isinstance(b, Mat)):
        raise Unsupported("matrix product with something else")
    return Mat(mul(a.scalar, b.scalar), None, DOT(recognise(a), recognise(b)))


def width(segs):
    return add(*[w for _, w in segs]) if segs else 0


def layout(c, m, total, pos):
    """Formula: digits [0, total); 2x2 factors exactly at the positions pos (a list, ascending), identities elsewhere."""
    fs = [eqz(width(m.segs), total)]
    off = 0
    got = []
    for what, w in m.segs:
        if what != "I":
            got.append((off, what))
        off = add(off, w)
    if len(got) != len(pos):
        return None, got
    fs += [eqz(p, q) for (p, _), q in zip(got, pos)]
    return And(fs), [w for _, w in got]


def recognise(m):
    """The code of the unscaled matrix; moves the weight of the 2x2 factors to where the contract expects it."""
    c = Ctx.cur
    if m.code is not None:
        return m.code
    h = H(c.ver.rt, c)
    total = c.data["total"]
    f, _ = layout(c, m, total, [])
    if f is not None:
        if c.prove_now(f):
            return ONE
        raise Unsupported("an identity matrix of another size")
    for k in c.data["read"]:
        f, ms = layout(c, m, total, [S(IDX(k))])
        if f is not None and c.prove_now(And(f, is_type(h, ms[0], TYP(k)))):
            return SITE(IDX(k), TYP(k))
    raise Unsupported("a matrix the contract does not recognise")


def is_type(h, ent, t):
    """The 2x2 entries are those of S_t."""
    tab = h.get(CO, "SPIN_MATRICES")
    fs = []
    for i, k in enumerate(OT):
        M = h.rt.get_item(tab, k)
        fs.append(Implies(t == i, And([value_eq(h.rt, ent[r][s], M[r, s]) for r in range(2) for s in range(2)])))
    return And(fs)


def exponent(c, n):
    """e with n == 2**e."""
    if isinstance(n, int) and n > 0 and n & (n - 1) == 0:
        return n.bit_length() - 1
    if isinstance(n, S):
        e = z3.simplify(n.e)
        if z3.is_app(e) and e.decl().eq(_POW2):
            return S(e.arg(0))
    raise Unsupported("a dimension that is not a power of two")


def identity(rt, a, k):
    c = Ctx.cur
    e = exponent(c, a[0])
    h = H(rt, c)
    h.ensure("the number of spins of an identity factor is not negative", ge(e, 0))
    return Mat(1, [("I", e)])


def as_mat(rt, v):
    if isinstance(v, Mat):
        if v.segs is None:
            raise Unsupported("kron of a product")
        return v
    if isinstance(v, np.ndarray) and v.shape == (2, 2):
        return Mat(1, [([[v[r, s] for s in range(2)] for r in range(2)], 1)])
    raise Unsupported("kron of %r" % (v,))


def kron(rt, a, k):
    A, B = as_mat(rt, a[0]), as_mat(rt, a[1])
    return Mat(mul(A.scalar, B.scalar), B.segs + A.segs)


def sort_ops(rt, s, key, reverse):
    """sorted(): a stable rearrangement that keeps the order of operators on one site."""
    c = Ctx.cur
    h = H(rt, c)
    n = s.length(rt)
    if rt.truth(compare(">", n, 1)):
        i, j = h.int("i"), h.int("j")
        c.assume(And(i.e >= 0, i.e < j.e, lt(j, n)))
        x, y = s.at(rt, i), s.at(rt, j)
        kx, ky = (rt.call(key, [o], {}) if key is not None else o for o in (x, y))
        same_site = eqz(x[0], y[0])
        h.ensure("sorting never exchanges operators on one site", Implies(same_site, Not(Or(formula(rt.rich("<", kx, ky)), formula(rt.rich("<", ky, kx))))))
    c.data["sorted"] = n
    p = z3.Int("p")
    c.assume(z3.ForAll([p], Implies(And(p >= 0, lt(S(p), n)), And(IDX(p) >= 0, lt(S(IDX(p)), c.data["total"]), TYP(p) >= 0, TYP(p) < 5)), patterns=[IDX(p)]))
    # the sorted order itself
    r = z3.Int("r")
    kp = lambda t: rt.call(key, [(S(IDX(t)), OType(TYP(t)))], {}) if key is not None else None
    if key is not None:
        a_, b_ = kp(p), kp(r)
        lt_ = formula(rt.rich("<", a_, b_) if reverse is True else rt.rich("<", b_, a_))
        c.assume(z3.ForAll([p, r], Implies(And(p >= 0, p < r, lt(S(r), n)), Not(lt_)), patterns=[z3.MultiPattern(IDX(p), IDX(r))]))
    return SList(n, pick)


def pick(k):
    c = Ctx.cur
    t = zi(k)
    c.data["read"].append(t)
    return (S(IDX(t)), OType(TYP(t)))


def tasks():
    out = []
    PRE = z3.Function("product_of_first", I, I)     # code of op_0 ... op_{k-1}

    def inv(loop):
        c = Ctx.cur
        res = []
        for n, v in loop.entry.items():
            if isinstance(v, Mat):
                def word(st, n=n):
                    k = zi(st.k)
                    c.assume(And(PRE(0) == ONE, PRE(k) == If(k == 0, ONE, DOT(PRE(k - 1), SITE(IDX(k - 1), TYP(k - 1))))))
                    return recognise(st[n]) == PRE(k)
                res.append(("%s is the product of the operators so far" % n, word))
                res.append(("%s keeps its factor" % n, lambda st, n=n, s=v.scalar: value_eq(c.ver.rt, st[n].scalar, s)))
        return res

    def T(name, fn, functions, uses=None, bounded=None, **kw):
        u = {"scipy.identity": identity, "scipy.eye": identity, "scipy.kron": kron, "sorted": sort_ops}
        u.update(uses or {})
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[SS], uses=u, invariants=inv,
                        assumes=["scipy.sparse.kron/identity: Kronecker product and identity of dimension 2^e", "operators on different sites commute; sorted() is stable",
                                 "total_spin and the site indices are mathematical integers"], **kw))
        out[-1].branch_ms = 400

    def setup(h):
        n = h.int("n")
        h.requires(n.e > 0)
        h.c.data.update(total=n, read=[])
        return n

    def operator(h, n, what="i"):
        i = h.int(what)
        h.requires(And(i.e >= 0, i.e < n.e))
        return i

    def ents(h, t):
        M = h.rt.get_item(h.get(CO, "SPIN_MATRICES"), t)
        return [[M[r, s] for s in range(2)] for r in range(2)]

    def single(h):
        n = setup(h)
        i = operator(h, n)
        t = h.choose(OT, "otype")
        m = h.call(h.attr(h.get(SS, "SpinOperator"), "matrix_function"), h.choose([tuple, list], "kind")((i, t)), n)
        if not isinstance(m, Mat) or m.segs is None:
            h.fail("a matrix is returned")
            raise PathEnd()
        f, ms = layout(h.c, m, n, [i])
        h.ensure("one 2x2 factor at the site, identities elsewhere, n digits", f if f is not None else False)
        w = ents(h, t)
        h.ensure("the 2x2 factor is the spin matrix", And([value_eq(h.rt, mul(m.scalar, ms[0][r][s]), w[r][s]) for r in range(2) for s in range(2)]))
    T("matrix of one operator", single, [SS + ".SpinOperator.matrix_function"])

    def product(h):
        n = setup(h)
        m = h.int("m")
        h.requires(m.e >= 0)
        G, Y = z3.Function("given_index", I, I), z3.Function("given_type", I, I)
        q = z3.Int("q")
        h.requires(z3.ForAll([q], Implies(And(q >= 0, q < m.e), And(G(q) >= 0, G(q) < n.e, Y(q) >= 0, Y(q) < 5)), patterns=[G(q)]))
        c = h.choose([h.real, h.cx], "coeff")("c")
        kind = tuple
        fn = lambda k: (S(G(zi(k))), OType(Y(zi(k))))
        seq = SSeq(m, fn, tuple) if kind is tuple else SList(m, fn)
        o = h.call(h.attr(h.get(SS, "SpinInteraction"), "matrix_function"), seq, n, c)
        if not isinstance(o, Mat):
            h.fail("a matrix is returned")
            raise PathEnd()
        if "sorted" not in h.c.data:
            raise Unsupported("the operators are not sorted by the code")
        if o.segs is None:
            h.ensure_value("the product is scaled by the coefficient", o.scalar, c)
            h.ensure("product of all operators in order", o.code == PRE(m.e))
            return
        # a layout: the operators act on different sites, each has its factor there
        cnt = sum(1 for w, _ in o.segs if w != "I")
        h.ensure("as many factors as operators", eqz(m, cnt))
        orders = [[0], [1, 0], [0, 1]] if cnt in (1, 2) else [[]]
        orders = [x for x in orders if len(x) == cnt]
        if not orders:
            raise Unsupported("a layout with %d factors" % cnt)
        goals = []
        for od in orders:
            f, ms = layout(h.c, o, n, [S(IDX(z3.IntVal(k))) for k in od])
            if len(orders) > 1 and not h.c.prove_now(f):
                continue
            g = [f] if cnt else [f, value_eq(h.rt, o.scalar, c)]
            if cnt:
                cand = [[t for t in range(5) if not h.c.prove_now(TYP(z3.IntVal(k)) != t)] for k in od]
                for sel in itertools.product(*cand):
                    typ = And([TYP(z3.IntVal(k)) == t for k, t in zip(od, sel)])
                    tab = [ents(h, OT[t]) for t in sel]
                    eqs = []
                    for rs in itertools.product([(0, 0), (0, 1), (1, 0), (1, 1)], repeat=cnt):
                        got = mul(o.scalar, *[x[r][s] for x, (r, s) in zip(ms, rs)])
                        want = mul(c, *[x[r][s] for x, (r, s) in zip(tab, rs)])
                        eqs.append(value_eq(h.rt, got, want))
                    g.append(Implies(typ, And(eqs)))
            goals.append(And(g))
        h.ensure("each operator's matrix at its site, identities elsewhere, times the coefficient", Or(goals + [z3.BoolVal(False)]))
        if cnt == 2:
            h.ensure("the two operators act on different sites", IDX(z3.IntVal(0)) != IDX(z3.IntVal(1)))
    T("matrix of a product of any number of operators", product, [SS + ".SpinInteraction.matrix_function"], max_paths=3000, budget=300)

    # -- what is handed to the matrix functions -------------------------------------------
    MF1, MF2 = SS + ".SpinOperator.matrix_function", SS + ".SpinInteraction.matrix_function"

    def handed(rt, f, args, kw):
        Ctx.cur.data["call"] = rt.bind_args(f, list(args), kw).vars
        return Mat(1, None, z3.IntVal(-1))

    class Table:
        model = True
        pytype = object

        def __init__(self, n):
            self.n = n

        def m_len(self, rt):
            return self.n

        def m_call(self, rt, a, k):
            o = a[0]
            return S(INDEX(o.t)) if isinstance(o, KObj) else Ctx.cur.data["lookup"](o)

    def site_contract(rt, f, args, kw):
        t = code(rt, args[0])
        return Rank(STATE(t)) if t is not None else inline(rt, f, args, kw)

    def index_contract(rt, f, args, kw):
        t = code(rt, args[0])
        return S(INDEX(STATE(t))) if t is not None else inline(rt, f, args, kw)

    def type_contract(rt, f, args, kw):
        t = code(rt, args[0])
        return OType(TYP(t)) if t is not None else inline(rt, f, args, kw)

    def sort_abs(rt, s, key, reverse):
        kept(rt, s, key)                                        # otherwise construction is the business of C09
        return SList(s.length(rt), lambda k: s.at(rt, k))

    def repr_one(h):
        n = setup(h)
        v, p = site(h, h.choose([1, 2, 3], "dim"))
        t = h.choose(OT, "otype")
        x = h.call(h.get(SS, "SpinOperator"), t, p)
        i = operator(h, n)
        sid = h.call(h.get("HamiltonianPy.quantumoperator.quantumstate", "SiteID"), p)

        def look(o):
            h.ensure("the table is asked for the operator's site", h.eq(o, sid))
            return i
        h.c.data["lookup"] = look
        h.meth(x, "matrix_repr", Table(n))
        e = h.c.data["call"]
        o = e["operator"]
        h.ensure("index and type of the operator, number of sites", And(eqz(o[0], i), z3.BoolVal(o[1] == t), eqz(e["total_spin"], n)))
    T("matrix_repr of an operator", repr_one, [SS + ".SpinOperator.matrix_repr"], uses={MF1: handed})

    def repr_many(h):
        n = setup(h)
        m, F, seq = string(h, h.get(SS, "SpinOperator"), "a")
        c = coeffs(h, "a")
        t = h.call(h.get(SS, "SpinInteraction"), seq, c)
        over = h.choose([False, True], "override")
        if over:
            c = coeffs(h, "new")
        if h.choose([False, True], "again"):
            h.meth(t, "matrix_repr", Table(n), c) if over else h.meth(t, "matrix_repr", Table(n))
            if not over:
                c = h.real("later")
                h.rt.setattr(t, "coeff", c)
        r = h.meth(t, "matrix_repr", Table(n), c) if over else h.meth(t, "matrix_repr", Table(n))
        e = h.c.data["call"]
        h.ensure("the matrix is the one computed", isinstance(r, Mat))
        h.ensure("number of sites", eqz(e["total_spin"], n))
        h.ensure_value("coefficient", e["coeff"], c)
        h.ensure_value("the coefficient is the (documented) override", h.attr(t, "coeff"), c)
        s = seq_of(h, e["operators"])
        h.ensure("all operators handed over", s is not None and eqz(s[0], m))
        q = h.int("q")
        h.requires(And(q.e >= 0, lt(q, m)))
        o = s[1](q)
        h.ensure("operators in order, with their site's index and type", And(eqz(o[0], S(INDEX(STATE(F(q.e))))), o[1].t == TYP(F(q.e)) if isinstance(o[1], OType) else z3.BoolVal(False)))
    T("matrix_repr of an interaction", repr_many, [SS + ".SpinInteraction.matrix_repr"],
      uses={MF2: handed, "sorted": sort_abs, SS + ".SpinOperator.site_id": site_contract, SS + ".SpinOperator.coordinate": coordinate_contract, SS + ".SpinOperator.getSiteIndex": index_contract, SS + ".SpinOperator.otype": type_contract})
    return out
