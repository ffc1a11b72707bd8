"""C09: spin operators and interactions: products, conjugates, Schwinger fermions, constants."""
from .base import *
from .c07 import site, label
from .c10 import aoc_is, cells, same
from .c03 import coeffs
from .strings import *
from . import c09terms
from pyvc import seqs

SS = "HamiltonianPy.quantumoperator.spinsystem"
PS = "HamiltonianPy.quantumoperator.particlesystem"
CO = "HamiltonianPy.quantumoperator.constant"
OT = ("x", "y", "z", "p", "m")


def kept(rt, s, key):
    """Obligation on sorted(): operators on one site keep their order."""
    c = Ctx.cur
    h = H(rt, c)
    n = s.length(rt)
    # operators on one site must have one key, or the sort may exchange operators that do not commute
    if rt.truth(compare(">", n, 1)):
        i, j = h.int("i"), h.int("j")
        c.assume(And(i.e >= 0, i.e < j.e, lt(j, n)))
        x, y = s.at(rt, i), s.at(rt, j)
        if code(rt, x) is None or code(rt, y) is None:
            raise Unsupported("sorting something that is not a string of operators")
        kx, ky = (rt.call(key, [o], {}) if key is not None else o for o in (x, y))
        h.ensure("sorting never exchanges operators on one site", Implies(STATE(code(rt, x)) == STATE(code(rt, y)), Not(Or(formula(rt.rich("<", kx, ky)), formula(rt.rich("<", ky, kx))))))
    return n


def sort_contract(rt, s, key, reverse):
    """sorted() of a string of any length: a stable rearrangement by the key."""
    c = Ctx.cur
    n = kept(rt, s, key)
    F = z3.Function(c.name("sorted"), I, I)
    cls = rt.getattr(rt.load(SS), "SpinOperator")
    c.data.setdefault("sorted", {})[F.name()] = (n, lambda k: s.at(rt, k))
    return SList(n, lambda k: abstract(cls, F(zi(k))))


def represents(h, label_, comps, n, want):
    """The components multiply to the operator string (n, codes want)."""
    s = seq_of(h, comps)
    if s is not None and not isinstance(s[0], int):
        h.ensure(label_ + ": number of operators", eqz(s[0], n))
        q = h.int("q")
        h.requires(And(q.e >= 0, lt(q, n), lt(q, s[0])))
        w = want(q.e)
        while True:
            # a sorted string stands for the string it was sorted from
            t = code(h.rt, s[1](q))
            if t is None:
                h.fail(label_ + ": not the operators given")
                raise PathEnd()
            src = h.c.data.get("sorted", {}).get(t.decl().name()) if t.num_args() == 1 and t.arg(0).eq(q.e) else None
            if src is None or h.c.prove_now(t == w) or not h.c.prove_now(eqz(src[0], s[0])):
                break
            s = src
        h.ensure(label_ + ": operator at every position", t == w)
        return
    if isinstance(comps, (tuple, list)) and len(comps) == 2:
        a, b = [code(h.rt, o) for o in comps]
        if a is None or b is None:
            h.fail(label_ + ": not the operators given")
            raise PathEnd()
        u, v = want(z3.IntVal(0)), want(z3.IntVal(1))
        h.ensure(label_ + ": the operators in an equivalent order", And(eqz(n, 2), Or(And(a == u, b == v), And(a == v, b == u, STATE(u) != STATE(v)))))
        return
    ensure_string(h, label_, comps, n, want)


def site_contract(rt, f, args, kw):
    t = code(rt, args[0])
    return Rank(STATE(t)) if t is not None else inline(rt, f, args, kw)


def dag(rt, f, args, kw):
    t = code(rt, args[0])
    if t is None:
        return inline(rt, f, args, kw)
    Ctx.cur.assume(And(DAG(DAG(t)) == t, STATE(DAG(t)) == STATE(t)))
    return abstract(args[0].cls, DAG(t))


COORD = z3.Function("raw_coordinates", I, I)     # not a function of the site: sites agree to a precision


def coordinate_contract(rt, f, args, kw):
    t = code(rt, args[0])
    return Rank(COORD(t)) if t is not None else inline(rt, f, args, kw)


U = {SS + ".SpinOperator.site_id": site_contract, SS + ".SpinOperator.coordinate": coordinate_contract, SS + ".SpinOperator.dagger": dag, "sorted": sort_contract}

TERMS = ["itertools.product: every choice of one element of each list, once", "the product of terms is the product of coefficients and the concatenation of the strings (C03)"]


def tasks():
    out = []

    def T(name, fn, functions, abstract_=True, assumes=(), **kw):
        kw.setdefault("modules", [SS])
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, uses=kw.pop("uses", dict(U) if abstract_ else {}),
                        assumes=["sorted() is a stable sort", "spin operators on different sites commute", "a total order of sites (C07)"] + list(assumes), **kw))

    def inter(h, name, n=None):
        n, F, seq = string(h, h.get(SS, "SpinOperator"), name, n, h.choose([tuple, list], "kind") if name == "a" else tuple)
        c = coeffs(h, name)
        t = h.call(h.get(SS, "SpinInteraction"), seq, c)
        return t, n, F, c

    def codes_of(h, t):
        s = seq_of(h, h.attr(t, "components"))
        if s is None:
            h.fail("components is a sequence")
            raise PathEnd()
        return s[0], lambda q: code(h.rt, s[1](S(q)))

    def result(h, what, r, n, F, c):
        if not (isinstance(r, Obj) and r.cls is h.get(SS, "SpinInteraction")):
            h.fail(what + ": the result is not a SpinInteraction")
            raise PathEnd()
        h.ensure_value(what + ": coefficient", h.attr(r, "coeff"), c)
        represents(h, what, h.attr(r, "components"), n, F)

    def join(n1, F1, F2):
        def f(q):
            if h_truth(q < zi(n1)):
                return F1(q)
            return F2(q - zi(n1))
        return f

    def h_truth(e):
        return Ctx.cur.ver.rt.truth(S(z3.simplify(e))) if not (z3.is_true(z3.simplify(e)) or z3.is_false(z3.simplify(e))) else z3.is_true(z3.simplify(e))

    def unchanged(h, t, before, c, what):
        h.ensure_value(what + ": coefficient unchanged", h.attr(t, "coeff"), c)
        ensure_string(h, what + " unchanged", h.attr(t, "components"), before[0], before[1])

    def build(h):
        t, n, F, c = inter(h, "a")
        result(h, "construction", t, n, F, c)
    T("construction keeps the operator", build, [SS + ".SpinInteraction.__init__"])

    def prod(h):
        a, n, F, c = inter(h, "a")
        b, m, G, d = inter(h, "b")
        A, B = codes_of(h, a), codes_of(h, b)
        w = h.choose(["product", "unchanged"], "w")
        r = h.rt.binop("*", a, b)
        if w == "product":
            result(h, "interaction*interaction", r, add(n, m), join(n, A[1], B[1]), mul(c, d))
        else:
            unchanged(h, a, A, c, "left operand")
            unchanged(h, b, B, d, "right operand")
    T("interaction * interaction", prod, [SS + ".SpinInteraction.__mul__"], max_paths=3000, budget=120)

    def with_op(h):
        a, n, F, c = inter(h, "a")
        A = codes_of(h, a)
        x = abstract(h.get(SS, "SpinOperator"), h.int("x").e)
        one = lambda q: code(h.rt, x)
        w = h.choose(["interaction*op", "op*interaction", "unchanged"], "w")
        if w == "interaction*op":
            result(h, w, h.rt.binop("*", a, x), add(n, 1), join(n, A[1], one), c)
        elif w == "op*interaction":
            result(h, w, h.rt.binop("*", x, a), add(n, 1), join(1, one, A[1]), c)
        else:
            h.rt.binop("*", a, x)
            h.rt.binop("*", x, a)
            unchanged(h, a, A, c, "operand")
    T("interaction * operator, operator * interaction", with_op, [SS + ".SpinInteraction.__mul__", SS + ".SpinInteraction.__rmul__"], max_paths=3000, budget=120)

    def with_num(h):
        a, n, F, c = inter(h, "a")
        A = codes_of(h, a)
        k = coeffs(h, "k")
        w = h.choose(["interaction*number", "number*interaction", "unchanged"], "w")
        if w == "unchanged":
            h.rt.binop("*", a, k)
            unchanged(h, a, A, c, "operand")
        else:
            result(h, w, h.rt.binop("*", a, k) if w[0] == "i" else h.rt.binop("*", k, a), n, A[1], mul(c, k))
    T("interaction * number, number * interaction", with_num, [SS + ".SpinInteraction.__mul__", SS + ".SpinInteraction.__rmul__"], max_paths=3000, budget=120)

    def ops(h):
        C = h.get(SS, "SpinOperator")
        x, y = abstract(C, h.int("x").e), abstract(C, h.int("y").e)
        cx, cy = code(h.rt, x), code(h.rt, y)
        w = h.choose(["op*op", "op*number", "number*op"], "w")
        if w == "op*op":
            result(h, w, h.rt.binop("*", x, y), 2, lambda q: cx if z3.is_int_value(q) and q.as_long() == 0 else cy if z3.is_int_value(q) else If(q == 0, cx, cy), 1)
        else:
            k = coeffs(h, "k")
            result(h, w, h.rt.binop("*", x, k) if w[0] == "o" else h.rt.binop("*", k, x), 1, lambda q: cx, k)
        bad = h.choose([None, "2", (1,)], "bad")
        h.ensure_raises("operator * foreign object", h.outcome(lambda: h.rt.binop("*", x, bad)), "TypeError")
        h.ensure_raises("foreign object * operator", h.outcome(lambda: h.rt.binop("*", bad, x)), "TypeError")
    T("operator * operator, operator * number", ops, [SS + ".SpinOperator.__mul__", SS + ".SpinOperator.__rmul__"], max_paths=1000)

    def dagger(h):
        a, n, F, c = inter(h, "a")
        A = codes_of(h, a)
        w = h.choose(["dagger", "unchanged"], "w")
        d = h.meth(a, "dagger")
        conj = Cx(c.re, arith("-", 0, c.im)) if isinstance(c, Cx) else c
        if w == "dagger":
            result(h, "dagger", d, n, lambda q: DAG(A[1](zi(n) - 1 - q)), conj)
        else:
            unchanged(h, a, A, c, "dagger: operand")
    T("dagger of an interaction", dagger, [SS + ".SpinInteraction.dagger"], max_paths=2000)

    def history(h):
        # answers follow the coefficient of the moment, and answers given before stay as they were
        a, n, F, c = inter(h, "a")
        A = codes_of(h, a)
        x = abstract(h.get(SS, "SpinOperator"), h.int("x").e)
        k = h.real("k")
        c2 = h.choose([h.real, h.cx], "new coefficient")("c2")
        cj = lambda v: Cx(v.re, arith("-", 0, v.im)) if isinstance(v, Cx) else v
        what, act, of = h.choose([
            ("dagger", lambda: h.meth(a, "dagger"), cj),
            ("interaction*number", lambda: h.rt.binop("*", a, k), lambda v: mul(v, k)),
            ("number*interaction", lambda: h.rt.binop("*", k, a), lambda v: mul(v, k)),
            ("interaction*op", lambda: h.rt.binop("*", a, x), lambda v: v),
            ("op*interaction", lambda: h.rt.binop("*", x, a), lambda v: v)], "operation")
        r = act()
        h.rt.setattr(a, "coeff", c2)
        h.ensure_value(what + ", then the coefficient changes: the old answer", h.attr(r, "coeff"), of(c))
        r2 = act()
        h.ensure_value(what + " after the coefficient changed: coefficient", h.attr(r2, "coeff"), of(c2))
        h.rt.setattr(r2, "coeff", Fraction(17, 2))
        h.ensure_value(what + ": changing the answer's coefficient leaves the operand", h.attr(a, "coeff"), c2)
        h.ensure_value(what + ": changing the answer's coefficient leaves later answers", h.attr(act(), "coeff"), of(c2))
        unchanged(h, a, A, c2, "operand")
    T("interactions whose coefficient is changed between operations", history,
      [SS + ".SpinInteraction." + f for f in ("coeff", "dagger", "__mul__", "__rmul__")], max_paths=4000)

    # -- matrices and constants, without abstraction ------------------------------------------
    def entries(h, m):
        if not (isinstance(m, np.ndarray) and m.shape == (2, 2)):
            h.fail("a 2x2 matrix")
            raise PathEnd()
        return [[m[i, j] for j in range(2)] for i in range(2)]

    def matmul(a, b):
        return [[add(mul(a[i][0], b[0][j]), mul(a[i][1], b[1][j])) for j in range(2)] for i in range(2)]

    def madd(a, b, k=1):
        return [[add(a[i][j], mul(k, b[i][j])) for j in range(2)] for i in range(2)]

    def scale(k, a):
        return [[mul(k, a[i][j]) for j in range(2)] for i in range(2)]

    def same_m(h, what, a, b):
        h.ensure(what, And([value_eq(h.rt, a[i][j], b[i][j]) for i in range(2) for j in range(2)]))

    def conj(v):
        if isinstance(v, (Cx, complex, np.complexfloating)):
            re, im = cparts(v)
            return Cx(S(zr(re)), S(zr(arith("-", 0, im))))
        return v

    iu = Cx(Fraction(0), Fraction(1))

    def constants(h):
        S_, G_ = h.get(CO, "SPIN_MATRICES"), h.get(CO, "SIGMA_MATRICES")
        M = {k: entries(h, h.rt.get_item(S_, k)) for k in OT}
        G = {k: entries(h, h.rt.get_item(G_, k)) for k in OT}
        for k in OT:
            same_m(h, "SPIN_%s is the table entry" % k.upper(), entries(h, h.get(CO, "SPIN_" + k.upper())), M[k])
            same_m(h, "SIGMA_%s is the table entry" % k.upper(), entries(h, h.get(CO, "SIGMA_" + k.upper())), G[k])
            same_m(h, "sigma_%s = 2 S_%s" % (k, k), G[k], scale(2, M[k]))
        for a, b, c in (("x", "y", "z"), ("y", "z", "x"), ("z", "x", "y")):
            same_m(h, "[S_%s,S_%s] = i S_%s" % (a, b, c), madd(matmul(M[a], M[b]), matmul(M[b], M[a]), -1), scale(iu, M[c]))
        same_m(h, "S_p = S_x + i S_y", M["p"], madd(M["x"], M["y"], iu))
        same_m(h, "S_m = S_x - i S_y", M["m"], madd(M["x"], M["y"], mul(-1, iu)))
        half = Fraction(1, 2)
        same_m(h, "S_z is diagonal, up first", M["z"], [[half, 0], [0, -half]])
        same_m(h, "S_x", M["x"], [[0, half], [half, 0]])
        h.ensure("operator types", tuple(h.get(CO, "SPIN_OTYPES")) == OT or set(h.get(CO, "SPIN_OTYPES")) == set(OT))
    T("spin and Pauli matrices", constants, [CO], abstract_=False)

    def op(h):
        v, p = site(h, h.choose([1, 2, 3], "dim"))
        k = h.choose(OT, "otype")
        C = h.get(SS, "SpinOperator")
        x = h.call(C, k, p)
        M = entries(h, h.rt.get_item(h.get(CO, "SPIN_MATRICES"), k))
        same_m(h, "matrix() is the spin matrix", entries(h, h.meth(x, "matrix")), M)
        d = h.meth(x, "dagger")
        h.ensure("dagger stays on the site", h.value_eq(h.attr(d, "coordinate"), tuple(v)))
        N = entries(h, h.meth(d, "matrix"))
        same_m(h, "dagger has the conjugate transposed matrix", N, [[conj(M[j][i]) for j in range(2)] for i in range(2)])
        h.ensure("dagger twice is the operator", h.eq(h.meth(d, "dagger"), x))
        h.ensure("operand unchanged", And(z3.BoolVal(h.attr(x, "otype") == k), h.value_eq(h.attr(x, "coordinate"), tuple(v))))
    T("matrix and dagger of an operator", op, [SS + ".SpinOperator.matrix", SS + ".SpinOperator.dagger"], abstract_=False, max_paths=1000)

    def index(h, spin):
        return 0 if spin == h.get(CO, "SPIN_UP") else 1

    def fermions(h, terms, ops_, coeff, what):
        """terms = coeff * product over ops of sum_ss' M[s,s'] c+_s c_s' (operators in order)."""
        C, A = h.get(CO, "CREATION"), h.get(CO, "ANNIHILATION")
        UP, DN = h.get(CO, "SPIN_UP"), h.get(CO, "SPIN_DOWN")
        terms = h.rt.to_list(terms)
        M = [entries(h, h.rt.get_item(h.get(CO, "SPIN_MATRICES"), k)) for k, _ in ops_]
        total = {}
        for t in terms:
            comps = h.attr(t, "components")
            if len(comps) != 2 * len(ops_):
                h.fail(what + ": two operators per spin operator")
                raise PathEnd()
            key = []
            for i, (_, v) in enumerate(ops_):
                c, a = comps[2 * i], comps[2 * i + 1]
                sc, sa = h.attr(c, "spin"), h.attr(a, "spin")
                if sc not in (UP, DN) or sa not in (UP, DN):
                    h.fail(what + ": spins are up or down")
                    raise PathEnd()
                h.ensure(what + ": creation then annihilation operator of the site", And(aoc_is(h, c, C, v, sc, 0), aoc_is(h, a, A, v, sa, 0)))
                key.append((index(h, sc), index(h, sa)))
            key = tuple(key)
            total[key] = add(total[key], h.attr(t, "coeff")) if key in total else h.attr(t, "coeff")
        import itertools
        pairs = [(0, 0), (0, 1), (1, 0), (1, 1)]
        for key in itertools.product(pairs, repeat=len(ops_)):
            want = coeff
            for m, (r, s) in zip(M, key):
                want = mul(want, m[r][s])
            h.ensure(what + ": matrix element of the spin operator", value_eq(h.rt, total.get(key, 0), want))

    def schwinger(h):
        v, p = site(h, h.choose([1, 2, 3], "dim"))
        k = h.choose(OT, "otype")
        x = h.call(h.get(SS, "SpinOperator"), k, p)
        fermions(h, h.meth(x, "Schwinger"), [(k, v)], 1, "Schwinger")
    T("Schwinger fermions of an operator", schwinger, [SS + ".SpinOperator.Schwinger"], abstract_=False, modules=[SS, PS], max_paths=1000)

    def schwinger_n(h):
        t, n, F, c = inter(h, "y")
        m, at = codes_of(h, t)
        c09terms.check(h, t, m, at)
    T("Schwinger fermions of an interaction of any length", schwinger_n, [SS + ".SpinInteraction.Schwinger"], modules=[SS, PS], invariants=c09terms.invariants,
      max_paths=3000,
      assumes=TERMS,
      uses={**U, **c09terms.HOOKS, SS + ".SpinOperator.Schwinger": c09terms.subterms})

    def schwinger_again(h):
        t, n, F, c = inter(h, "y")
        m, at = codes_of(h, t)
        c09terms.again(h, t, m, at, h.choose([h.real, h.cx], "new coefficient")("c2"))
    T("Schwinger fermions after the coefficient changed", schwinger_again, [SS + ".SpinInteraction.Schwinger"], modules=[SS, PS], invariants=c09terms.invariants,
      max_paths=3000, assumes=TERMS, uses={**U, **c09terms.HOOKS, SS + ".SpinOperator.Schwinger": c09terms.subterms})
    return out
