"""C04: normal ordering of strings of any length."""
from .base import *
from .strings import *
from pyvc.seqs import CodeList

PS = "HamiltonianPy.quantumoperator.particlesystem"
ARR = z3.ArraySort(I, I)
ID = z3.Const("identity_order", ARR)
V = z3.Function("matrix_element", ARR, z3.RealSort())
W = z3.Function("operator", I, I)       # code of the operator at a position of the given string
q, p = z3.Int("q"), z3.Int("p")


def tasks():
    out = []

    def at_pos(h, t):
        o = abstract(h.get(PS, "AoC"), W(t))
        o.attrs["pos"] = S(t)
        return o

    def enc(v):
        return v.attrs["pos"].e if isinstance(v, Obj) and "pos" in v.attrs else None

    def as_list(rt, seq):
        c = Ctx.cur
        c.data["lists"].append(CodeList(seq.n, ID, enc, lambda t: at_pos(c.data["h"], t)))
        return c.data["lists"][-1]

    def swapped(L):
        """Exchanging neighbours on different states flips the sign (C03), for every matrix element."""
        fs = []
        if len(L.stores) >= 2:
            (A, i, x), (B, j, y) = L.stores[-2:]
            fs.append(Implies(And(Or(j == i + 1, i == j + 1), x == A[j], y == A[i], STATE(W(A[i])) != STATE(W(A[j]))), V(L.arr) == -V(A)))
        return And(fs + [z3.BoolVal(True)])

    def inv(loop):
        c = Ctx.cur
        depth = len(c.loops)
        lists = [o for o, _ in loop.heap.values() if isinstance(o, CodeList)]
        if not lists:
            return []
        L = lists[0]
        n = zi(c.data["n"])
        p0, q0 = c.data["p0"], c.data["q0"]
        P = lambda j: z3.Select(L.arr, j)
        S0 = lambda j: STATE(W(P(j)))
        res = [("same length", lambda st: zi(L.n) == n),
               ("positions of the given string", lambda st: z3.ForAll([q], Implies(And(q >= 0, q < n), And(P(q) >= 0, P(q) < n)), patterns=[P(q)])),
               ("no position twice", lambda st: z3.ForAll([p, q], Implies(And(p >= 0, p < q, q < n), P(p) != P(q)), patterns=[z3.MultiPattern(P(p), P(q))])),
               ("operators of one state keep their order", lambda st: z3.ForAll([p, q], Implies(And(p >= 0, p < q, q < n, S0(p) == S0(q)), P(p) < P(q)), patterns=[z3.MultiPattern(P(p), P(q))])),
               ("position p0 present", lambda st: Implies(And(p0 >= 0, p0 < n), z3.Exists([q], And(q >= 0, q < n, P(q) == p0), patterns=[P(q)]))),
               ("position q0 present", lambda st: Implies(And(q0 >= 0, q0 < n), z3.Exists([q], And(q >= 0, q < n, P(q) == q0)))),
               ]

        def counted(name):
            def f(st):
                v = zi(st[name])
                c.assume(swapped(L))
                return And(v >= 0, V(ID) == If(v % 2 == 0, V(L.arr), -V(L.arr)))
            return f
        for name, v in loop.entry.items():
            if is_num(v):
                res.append(("(-1)^%s is the sign of the exchanges" % name, counted(name)))
        if depth == 0:
            m = lambda st: n - zi(st.k)
        else:
            m = lambda st: zi(loop.n) + 1
            res.append(("the largest operator so far is carried along", lambda st: z3.ForAll([q], Implies(And(q >= 0, q < zi(st.k)), Not(gt_codes(W(P(q)), W(P(zi(st.k)))))), patterns=[P(q)])))
        res.append(("the tail is in order and above the rest", lambda st: z3.ForAll([p, q], Implies(And(p >= 0, p < q, q < n, q >= m(st)), Not(gt_codes(W(P(p)), W(P(q))))), patterns=[z3.MultiPattern(P(p), P(q))])))
        return res

    def T(name, fn, **kw):
        u = order_contracts(PS)
        u["list"] = as_list
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [PS + ".ParticleTerm.normalize"], modules=[PS], uses=u, invariants=inv,
                        assumes=["order and state equality of AoC (contract C07)", "exchanging neighbours on different states flips the sign of every matrix element (lemma C03)"], **kw))
        out[-1].branch_ms = 400

    def start(h):
        c = h.c
        n = h.int("n")
        h.requires(n.e >= 0)
        c.data.update(h=h, lists=[], n=n, p0=h.int("p0").e, q0=h.int("q0").e)
        c.assume(z3.ForAll([q], ID[q] == q, patterns=[ID[q]]))
        c.assume(z3.ForAll([q], And(OTYPE(q) >= 0, OTYPE(q) <= 1), patterns=[OTYPE(q)]))
        given = h.choose(["tuple", "list"], "kind")
        seq = SSeq(n, lambda k: at_pos(h, zi(k)), tuple) if given == "tuple" else CodeList(n, ID, enc, lambda t: at_pos(h, t))
        return n, seq

    def bad_pair(a, b):
        return And(OTYPE(W(a)) == 0, OTYPE(W(b)) == 1, STATE(W(a)) == STATE(W(b)))

    def run(h):
        n, seq = start(h)
        f = h.attr(h.get(PS, "ParticleTerm"), "normalize")
        o = h.outcome(f, seq)
        if isinstance(seq, CodeList):
            h.ensure("the list passed in is not modified", And(z3.BoolVal(not seq.stores), seq.arr == ID, eqz(seq.n, n)))
        if o[0] == "raise":
            h.ensure("only SwapFermionError is raised", o[1] == "SwapFermionError")
            h.ensure("raised only if an annihilation operator is left of a creation operator of the same state",
                     z3.Exists([p, q], And(p >= 0, p < q, q < n.e, bad_pair(p, q))))
            return
        r = o[1]
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], CodeList) and is_num(r[1])):
            h.fail("the result is a list and a count")
            raise PathEnd()
        L, cnt = r
        P = lambda j: z3.Select(L.arr, j)
        p0, q0 = h.c.data["p0"], h.c.data["q0"]
        h.c.assume(swapped(L))
        h.ensure("the result has the same length", eqz(L.n, n))
        a, b = h.int("a").e, h.int("b").e
        h.ensure("every operator of the result is one of the given", Implies(And(a >= 0, a < n.e), And(P(a) >= 0, P(a) < n.e)))
        h.ensure("no operator is used twice", Implies(And(a >= 0, a < b, b < n.e), P(a) != P(b)))
        h.ensure("no operator is lost", Implies(And(p0 >= 0, p0 < n.e), z3.Exists([q], And(q >= 0, q < n.e, P(q) == p0))))
        h.ensure("the result is in ascending order", Implies(And(a >= 0, a < b, b < n.e), Not(gt_codes(W(P(a)), W(P(b))))))
        v = zi(cnt)
        h.ensure("the given product is (-1)^count times the result", And(v >= 0, V(ID) == If(v % 2 == 0, V(L.arr), -V(L.arr))))
        h.ensure("no error although a creation operator is right of an annihilation operator of its state",
                 Not(And(p0 >= 0, p0 < q0, q0 < n.e, bad_pair(p0, q0))))
    T("normal ordering of any string", run, budget=400, timeout=30)
    return out
