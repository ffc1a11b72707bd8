"""C03: the algebra of creation/annihilation operators, for strings of any length."""
from .base import *
from .c11 import FP
from .c07 import site, label
from .c10 import aoc_is
from .strings import *

PS = "HamiltonianPy.quantumoperator.particlesystem"
QS = "HamiltonianPy.quantumoperator.quantumstate"


def coeffs(h, n):
    k = h.choose(["real", "complex", "int"], "coeff" + n)
    return {"real": h.real, "complex": h.cx, "int": h.int}[k]("c" + n)


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        kw.setdefault("uses", {})
        kw["uses"].update(dagger_contract(PS, "AoC"))
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [PS + "." + f for f in functions], modules=[PS],
                        assumes=[FP, "AoC.dagger is an involution (its own contract, C07)"], **kw))

    def term(h, name, n=None, classification=None):
        AoC, PT = h.get(PS, "AoC"), h.get(PS, "ParticleTerm")
        n, F, seq = string(h, AoC, name, n, h.choose([tuple, list], "kind") if name == "a" else tuple)
        c = coeffs(h, name)
        kw = {} if classification is None else {"classification": classification}
        t = h.call(PT, seq, c, **kw)
        return t, n, F, c

    def unchanged(h, t, n, F, c, what):
        h.ensure_value(what + ": coefficient unchanged", h.attr(t, "coeff"), c)
        ensure_string(h, what + " unchanged", h.attr(t, "components"), n, F)

    def result(h, what, r, n, F, c, keep="general"):
        PT = h.get(PS, "ParticleTerm")
        if not (isinstance(r, Obj) and r.cls is PT):
            h.fail(what + ": the result is not a ParticleTerm")
            raise PathEnd()
        h.ensure_value(what + ": coefficient", h.attr(r, "coeff"), c)
        cl = h.attr(r, "classification")
        # the string of the operand (keep: its classification) may keep its tag, any other string must not claim a special form
        h.ensure(what + ": the classification claims no special form", z3.BoolVal(cl in ("general", keep)))
        ensure_string(h, what, h.attr(r, "components"), n, F)

    def join(n1, F1, F2):
        return lambda q: If(q < zi(n1), F1(q), F2(q - zi(n1)))

    def term_term(h):
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        a, n, F, c = term(h, "a", classification=cl)
        b, m, G, d = term(h, "b")
        w = h.choose(["product", "left unchanged", "right unchanged"], "check")
        r = h.rt.binop("*", a, b)
        if w == "product":
            result(h, "term*term", r, add(n, m), join(n, F, G), mul(c, d))
        elif w == "left unchanged":
            unchanged(h, a, n, F, c, "left operand")
        else:
            unchanged(h, b, m, G, d, "right operand")
    T("term * term", term_term, ["ParticleTerm.__mul__", "ParticleTerm.__init__"], max_paths=2000)

    def term_op(h):
        AoC = h.get(PS, "AoC")
        a, n, F, c = term(h, "a", classification=h.choose(["general", "hopping", "number", "Coulomb"], "classification"))
        x = abstract(AoC, h.int("x").e)
        t = code(h.rt, x)
        w = h.choose(["term*op", "op*term", "unchanged"], "w")
        one = lambda q: t
        if w == "term*op":
            result(h, w, h.rt.binop("*", a, x), add(n, 1), join(n, F, one), c)
        elif w == "op*term":
            result(h, w, h.rt.binop("*", x, a), add(n, 1), join(1, one, F), c)
        else:
            h.rt.binop("*", x, a)
            h.rt.binop("*", a, x)
            unchanged(h, a, n, F, c, "operand")
    T("term * operator, operator * term", term_op, ["ParticleTerm.__mul__", "ParticleTerm.__rmul__"], max_paths=4000)

    def term_num(h):
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        a, n, F, c = term(h, "a", classification=cl)
        x = coeffs(h, "x")
        w = h.choose(["term*number", "number*term", "unchanged"], "w")
        if w == "unchanged":
            h.rt.binop("*", a, x)
            h.rt.binop("*", x, a)
            unchanged(h, a, n, F, c, "operand")
        else:
            result(h, w, h.rt.binop("*", a, x) if w[0] == "t" else h.rt.binop("*", x, a), n, F, mul(c, x), keep=cl)
    T("term * number, number * term", term_num, ["ParticleTerm.__mul__", "ParticleTerm.__rmul__"], max_paths=4000)

    def op_op(h):
        AoC, PT = h.get(PS, "AoC"), h.get(PS, "ParticleTerm")
        x, y = abstract(AoC, h.int("x").e), abstract(AoC, h.int("y").e)
        cx, cy = code(h.rt, x), code(h.rt, y)
        w = h.choose(["op*op", "op*number", "number*op"], "w")
        if w == "op*op":
            result(h, w, h.rt.binop("*", x, y), 2, lambda q: If(q == 0, cx, cy), 1)
        else:
            k = coeffs(h, "k")
            result(h, w, h.rt.binop("*", x, k) if w[0] == "o" else h.rt.binop("*", k, x), 1, lambda q: cx, k)
    T("operator * operator, operator * number", op_op, ["AoC.__mul__", "AoC.__rmul__"], max_paths=1000)

    def power(h):
        # three factors in any bracketing
        AoC = h.get(PS, "AoC")
        x, y, w = [abstract(AoC, h.int("x").e) for _ in range(3)]
        k = [code(h.rt, o) for o in (x, y, w)]
        c = coeffs(h, "k")
        b = lambda a_, b_: h.rt.binop("*", a_, b_)
        r = h.choose([lambda: b(b(x, y), b(c, w)), lambda: b(b(b(x, c), y), w), lambda: b(x, b(y, b(w, c))), lambda: b(b(c, x), b(y, w))], "bracketing")()
        result(h, "three factors", r, 3, lambda q: If(q == 0, k[0], If(q == 1, k[1], k[2])), c)
    T("three operators and a number in any bracketing", power, ["AoC.__mul__", "ParticleTerm.__mul__", "ParticleTerm.__rmul__"], max_paths=1000)

    def dagger(h):
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        a, n, F, c = term(h, "a", classification=cl)
        w = h.choose(["dagger", "twice", "unchanged"], "w")
        d = h.meth(a, "dagger")
        conj = Cx(c.re, arith("-", 0, c.im)) if isinstance(c, Cx) else c
        rev = lambda q: DAG(F(zi(n) - 1 - q))
        if w == "dagger":
            h.ensure_value("dagger: conjugate coefficient", h.attr(d, "coeff"), conj)
            h.ensure("dagger: the classification still fits", z3.BoolVal(h.attr(d, "classification") in ("general", cl)))
            ensure_string(h, "dagger", h.attr(d, "components"), n, rev)
        elif w == "twice":
            e = h.meth(d, "dagger")
            h.ensure_value("dagger twice: coefficient", h.attr(e, "coeff"), c)
            ensure_string(h, "dagger twice", h.attr(e, "components"), n, F)
        else:
            unchanged(h, a, n, F, c, "dagger: operand")
    T("dagger of a term", dagger, ["ParticleTerm.dagger"], max_paths=2000)

    def history(h):
        # answers follow the coefficient of the moment, and answers given before stay as they were
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        a, n, F, c = term(h, "a", classification=cl)
        x = abstract(h.get(PS, "AoC"), h.int("x").e)
        t = code(h.rt, x)
        k = h.real("k")
        c2 = h.choose([h.real, h.cx], "new coefficient")("c2")
        cj = lambda v: Cx(v.re, arith("-", 0, v.im)) if isinstance(v, Cx) else v
        one = lambda q: t
        what, act, m, G, of = h.choose([
            ("dagger", lambda: h.meth(a, "dagger"), n, lambda q: DAG(F(zi(n) - 1 - q)), cj),
            ("term*number", lambda: h.rt.binop("*", a, k), n, F, lambda v: mul(v, k)),
            ("number*term", lambda: h.rt.binop("*", k, a), n, F, lambda v: mul(v, k)),
            ("term*op", lambda: h.rt.binop("*", a, x), add(n, 1), join(n, F, one), lambda v: v),
            ("op*term", lambda: h.rt.binop("*", x, a), add(n, 1), join(1, one, F), lambda v: v)], "operation")
        r = act()
        h.rt.setattr(a, "coeff", c2)
        h.ensure_value(what + ", then the coefficient changes: the old answer", h.attr(r, "coeff"), of(c))
        r2 = act()
        h.ensure_value(what + " after the coefficient changed: coefficient", h.attr(r2, "coeff"), of(c2))
        ensure_string(h, what + " after the coefficient changed", h.attr(r2, "components"), m, G)
        h.rt.setattr(r2, "coeff", Fraction(17, 2))
        h.ensure_value(what + ": changing the answer's coefficient leaves the operand", h.attr(a, "coeff"), c2)
        h.ensure_value(what + ": changing the answer's coefficient leaves later answers", h.attr(act(), "coeff"), of(c2))
    T("terms whose coefficient is changed between operations", history,
      ["ParticleTerm.coeff", "ParticleTerm.dagger", "ParticleTerm.__mul__", "ParticleTerm.__rmul__"], max_paths=4000)

    def aoc_dagger(h):
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        s, o = label(h, "s"), label(h, "o")
        C, A = h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        t = h.choose([C, A], "type")
        a = h.call(h.get(PS, "AoC"), t, p, s, o)
        d = h.meth(a, "dagger")
        h.ensure("dagger: the other type, the same state", aoc_is(h, d, A if t == C else C, v, s, o))
        h.ensure("dagger twice: the operator", aoc_is(h, h.meth(d, "dagger"), t, v, s, o))
        h.ensure("operand unchanged", aoc_is(h, a, t, v, s, o))
        n = h.call(h.get(PS, "NumberOperator"), p, s, o)
        e = h.meth(n, "dagger")
        h.ensure("a number operator is Hermitian", And(z3.BoolVal(isinstance(e, Obj) and e.cls is h.get(PS, "NumberOperator")), h.eq(e, n)))
    T("dagger of an operator", aoc_dagger, ["AoC.dagger", "NumberOperator.dagger"])

    def number(h):
        AoC, C, A = h.get(PS, "AoC"), h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        s, o = label(h, "s"), label(h, "o")
        n = h.call(h.get(PS, "NumberOperator"), p, s, o)
        w, q = site(h, dim, "y")
        s2, o2 = label(h, "s2"), label(h, "o2")
        N = [(C, v, s, o), (A, v, s, o)]
        N2 = [(C, w, s2, o2), (A, w, s2, o2)]
        m = h.call(h.get(PS, "NumberOperator"), q, s2, o2)
        t = h.choose([C, A], "type")
        x = h.call(AoC, t, q, s2, o2)
        X = [(t, w, s2, o2)]
        k = coeffs(h, "k")
        y = h.rt.binop("*", x, k)
        b = lambda a_, b_: h.rt.binop("*", a_, b_)
        what, r, want, c = h.choose([
            ("n.toterm()", lambda: h.meth(n, "toterm"), N, 1), ("n*n", lambda: b(n, m), N + N2, 1), ("n*number", lambda: b(n, k), N, k),
            ("number*n", lambda: b(k, n), N, k), ("n*op", lambda: b(n, x), N + X, 1), ("op*n", lambda: b(x, n), X + N, 1),
            ("n*term", lambda: b(n, y), N + X, k), ("term*n", lambda: b(y, n), X + N, k)], "product")
        r = r()
        comps = h.attr(r, "components")
        h.ensure(what + ": number of operators", len(comps) == len(want))
        if len(comps) != len(want):
            raise PathEnd()
        for a, u in zip(comps, want):
            h.ensure(what + ": operators in order", aoc_is(h, a, *u))
        h.ensure_value(what + ": coefficient", h.attr(r, "coeff"), c)
        fits = ["general"] + (["number"] if want == N else []) + (["Coulomb"] if want == N + N2 else [])
        h.ensure(what + ": the classification fits the operators", z3.BoolVal(h.attr(r, "classification") in fits))
        for a, u in ((n, (v, s, o)), (m, (w, s2, o2))):
            h.ensure("operands unchanged", And(h.value_eq(h.attr(a, "coordinate"), tuple(u[0])), h.eq(h.attr(a, "spin"), u[1]), h.eq(h.attr(a, "orbit"), u[2])))
    T("number operators in products", number, ["NumberOperator.__mul__", "NumberOperator.__rmul__", "NumberOperator.toterm"], max_paths=3000, budget=200)

    def foreign(h):
        AoC = h.get(PS, "AoC")
        x = h.choose(["op", "term"], "x")
        o = abstract(AoC, h.int("x").e) if x == "op" else term(h, "b")[0]
        bad = h.choose([None, "2", (1,)], "bad")
        h.ensure_raises("%s * non-operator raises TypeError" % x, h.outcome(lambda: h.rt.binop("*", o, bad)), "TypeError")
        h.ensure_raises("non-operator * %s raises TypeError" % x, h.outcome(lambda: h.rt.binop("*", bad, o)), "TypeError")
    T("products with foreign objects", foreign, ["AoC.__mul__", "ParticleTerm.__mul__"])

    # -- matrices: which problem is handed to matrix_function (contract: C01) ---------------
    def handed(rt, f, args, kw):
        e = rt.bind_args(f, list(args), kw).vars
        Ctx.cur.data["call"] = e
        return Opaque_matrix()

    def index_contract(rt, f, args, kw):
        o = args[0]
        t = code(rt, o)
        if t is None or not isinstance(args[1], Table):
            return inline(rt, f, args, kw)
        return S(INDEX(STATE(t)))

    def otype_contract(rt, f, args, kw):
        t = code(rt, args[0])
        return S(OTYPE(t)) if t is not None else inline(rt, f, args, kw)

    U = {PS + ".AoC.getStateIndex": index_contract, PS + ".AoC.otype": otype_contract, "HamiltonianPy.quantumoperator.matrixrepr.matrix_function": handed}

    def pair_at(h, seq, q):
        s = seq_of(h, seq)
        if s is None:
            h.fail("the term handed over is not a sequence")
            raise PathEnd()
        p = s[1](q)
        if not (isinstance(p, (tuple, list)) and len(p) == 2):
            h.fail("not a (state, type) pair")
            raise PathEnd()
        return p

    def handed_as(h, m, e, left, to_csr, coeff, tag, bases):
        h.ensure("the matrix is the one computed", isinstance(m, Opaque_matrix))
        h.ensure("right bases as given", e["right_bases"] is bases)
        h.ensure("left bases as given", e["left_bases"] is left)
        h.ensure("to_csr as given", e["to_csr"] is to_csr)
        h.ensure("special tag", z3.BoolVal(e["special_tag"] == tag))
        h.ensure_value("coefficient", e["coeff"], coeff)

    def options(h):
        bases, left = object_("right bases"), h.choose([None, object_("left bases")], "left")
        to_csr = h.choose([True, False, None], "csr")
        kw = {}
        if left is not None:
            kw["left_bases"] = left
        if to_csr is not None:
            kw["to_csr"] = to_csr
        return bases, left, (True if to_csr is None else to_csr), kw

    def term_matrix(h):
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        a, n, F, c = term(h, "a", classification=cl)
        bases, left, csr, kw = options(h)
        over = h.choose([False, True], "override")
        want = c
        if over:
            kw["coeff"] = want = coeffs(h, "new")
        if h.choose([False, True], "again"):
            h.meth(a, "matrix_repr", Table(), bases, **kw)
            if not over:
                want = h.real("later")
                h.rt.setattr(a, "coeff", want)
        m = h.meth(a, "matrix_repr", Table(), bases, **kw)
        e = h.c.data["call"]
        handed_as(h, m, e, left, csr, want, cl, bases)
        h.ensure_value("the coefficient is the (documented) override", h.attr(a, "coeff"), want)
        s = seq_of(h, e["term"])
        h.ensure("all operators handed over", s is not None and eqz(s[0], n))
        q = h.int("q")
        h.requires(And(q.e >= 0, lt(q, n)))
        i, t = pair_at(h, e["term"], q)
        h.ensure("operators in order, with their state's index and type", And(eqz(i, S(INDEX(STATE(F(q.e))))), eqz(t, S(OTYPE(F(q.e))))))
    T("matrix of a term: its string, coefficient and classification", term_matrix, ["ParticleTerm.matrix_repr"], uses=dict(U), max_paths=3000, budget=200)

    def op_matrix(h):
        C, A = h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        v, p = site(h, 2)
        s, o = label(h, "s"), label(h, "o")
        t = h.choose([C, A], "type")
        bases, left, csr, kw = options(h)
        idx = h.int("index")
        want = h.call(h.get(QS, "StateID"), p, s, o)
        tab = Native("table", lambda rt, a, k: lookup(h, a[0], want, idx))
        w = h.choose(["AoC", "NumberOperator"], "w")
        if w == "AoC":
            x = h.call(h.get(PS, "AoC"), t, p, s, o)
            m = h.meth(x, "matrix_repr", tab, bases, **kw)
            seq = [(idx, t)]
            e = h.c.data["call"]
            h.ensure("no tag, or none that restricts the form", z3.BoolVal(e["special_tag"] == "general"))
            handed_as(h, m, e, left, csr, 1, "general", bases)
        else:
            if left is not None:
                raise PathEnd()
            x = h.call(h.get(PS, "NumberOperator"), p, s, o)
            m = h.meth(x, "matrix_repr", tab, bases, **kw)
            seq = [(idx, C), (idx, A)]
            e = h.c.data["call"]
            handed_as(h, m, e, None, csr, 1, h.choose([e["special_tag"]], "tag"), bases)
            h.ensure("a tag that fits a number operator", z3.BoolVal(e["special_tag"] in ("general", "number")))
        got = e["term"]
        h.ensure("operators handed over", h.value_eq([tuple(x) for x in got], seq))
    T("matrix of an operator: its state's index and type", op_matrix, ["AoC.matrix_repr", "NumberOperator.matrix_repr"], uses={"HamiltonianPy.quantumoperator.matrixrepr.matrix_function": handed})

    # -- lemmas about the canonical action that C01 establishes for the matrices -------------
    def par(x, i):
        """Parity of the occupied states below i (64-bit occupation number)."""
        y = x & ((z3.BitVecVal(1, 64) << i) - 1)
        for k in (32, 16, 8, 4, 2, 1):
            y = y ^ z3.LShR(y, k)
        return z3.Extract(0, 0, y)

    def act(x, i, create):
        """(alive, ket, parity) of one operator on |x>."""
        b = z3.BitVecVal(1, 64) << i
        occ = (x & b) != 0
        return (Not(occ) if create else occ), x ^ b, par(x, i)

    def car(h):
        x = z3.BitVec(h.c.name("x"), 64)
        i, j = z3.BitVec(h.c.name("i"), 64), z3.BitVec(h.c.name("j"), 64)
        h.requires(And(z3.ULT(i, 64), z3.ULT(j, 64)))
        for ci, cj, name in ((True, True, "{c+,c+}=0"), (False, False, "{c,c}=0"), (False, True, "{c,c+}=delta")):
            # A_i A_j and A_j A_i on |x>
            a1, k1, p1 = act(x, j, cj)
            a2, k2, p2 = act(k1, i, ci)
            b1, l1, q1 = act(x, i, ci)
            b2, l2, q2 = act(l1, j, cj)
            alive, alive2 = And(a1, a2), And(b1, b2)
            h.ensure(name + ": different states anticommute", Implies(i != j, And(alive == alive2, Implies(alive, And(k2 == l2, p1 ^ p2 != q1 ^ q2)))))
            if ci == cj:
                h.ensure(name + ": squares vanish", Implies(i == j, And(Not(alive), Not(alive2))))
            else:
                h.ensure(name + ": same state", Implies(i == j, And(alive != alive2, Implies(alive, And(k2 == x, p1 ^ p2 == 0)), Implies(alive2, And(l2 == x, q1 ^ q2 == 0)))))
        # conjugation: <y|A|x> = <x|A+|y>
        y = z3.BitVec(h.c.name("y"), 64)
        for cr in (True, False):
            a, k, p = act(x, i, cr)
            b, l, q = act(y, i, not cr)
            h.ensure("the conjugate operator has the transposed matrix", And(And(a, k == y) == And(b, l == x), Implies(And(a, k == y), p == q)))
    T("lemma: the canonical action obeys the anticommutation relations and conjugation", car, [], timeout=60)

    return out


class Opaque_matrix:
    pytype = object


class Table:
    """A state-index table (only handed on; its contract is C06)."""
    pytype = object


class object_:
    pytype = list

    def __init__(self, what):
        self.what = what


def lookup(h, got, want, idx):
    h.ensure("the table is asked for the operator's state", h.eq(got, want))
    return idx
