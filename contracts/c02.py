"""C02: the specialised computations equal the general one (the canonical action of C01)."""
from .base import *
from .c01 import *
from .c01 import action, USES, TRUST
from .strings import *

PS = "HamiltonianPy.quantumoperator.particlesystem"


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[MR], uses=dict(USES), assumes=TRUST, invariants=action, **kw))

    def special(tag):
        def body(h):
            i = z3.BitVec(h.c.name("i"), 64)
            j = z3.BitVec(h.c.name("j"), 64)
            if tag == "hopping":
                h.requires(i != j)
                string = [(i, True), (j, False)]
            elif tag == "number":
                string = [(i, True), (i, False)]
            else:
                string = [(i, True), (i, False), (j, True), (j, False)]
            left = h.choose(["none", "same", "other"], "left")
            pb = Problem(h, left == "other", string)
            coeff = h.choose([h.real, h.cx, h.int], "coefficient")("coeff")
            csr = h.choose([True, False], "csr")
            kw = {"none": {}, "same": {"left_bases": pb.right}, "other": {"left_bases": pb.left}}[left]
            f = h.get(MR, "matrix_function")
            o = h.outcome(lambda: h.call(f, pb.term, pb.right, coeff=coeff, to_csr=csr, special_tag=tag, **kw))
            same_matrix(h, pb, o, coeff, csr)
        return body
    core = {"hopping": "_core_hopping", "number": "_core_particle_number", "Coulomb": "_core_coulomb"}
    for tag in core:
        T("declared %s: the canonical matrix" % tag, special(tag), [MR + ".matrix_function", MR + "." + core[tag], MR + "._core_general"], max_paths=3000, budget=300)

    def compat(h):
        AoC, PT = h.get(PS, "AoC"), h.get(PS, "ParticleTerm")
        cl = h.choose(["general", "hopping", "number", "Coulomb"], "classification")
        size = h.choose([0, 1, 2, 3, 4, 5, None], "length")
        n, F, seq = string(h, AoC, "a", size)
        if size is None:
            h.requires(n.e >= 6)
        t = h.call(PT, seq, h.real("coeff"), classification=cl)
        r = h.meth(t, "check_compatibility")
        pat = {"general": None, "hopping": (1, 0), "number": (1, 0), "Coulomb": (1, 0, 1, 0)}[cl]
        if pat is None:
            want = z3.BoolVal(True)
        elif size != len(pat):
            want = z3.BoolVal(False)
        else:
            f = [F(z3.IntVal(q)) for q in range(size)]
            want = And([OTYPE(x) == p for x, p in zip(f, pat)])
            if cl == "hopping":
                want = And(want, STATE(f[0]) != STATE(f[1]))
            else:
                want = And([want] + [STATE(f[q]) == STATE(f[q + 1]) for q in range(0, size, 2)])
        h.ensure("compatible exactly when the operators have the declared form", formula(h.rt.truth(r) if not isinstance(r, (S, bool)) else r) == want)
    out.append(Task("check_compatibility", lambda rt, c: compat(H(rt, c)), [PS + ".ParticleTerm.check_compatibility"], modules=[PS], uses=order_contracts(PS), max_paths=3000,
                    assumes=["contracts of AoC.otype and AoC.state (C07)"]))

    def below(h):
        """Flipping bit i changes the parity below j iff i < j: induction on j (0..64)."""
        Q = P
        x, i, j = z3.BitVec("x", 64), z3.BitVec("i", 64), z3.BitVec("j", 64)
        y = x ^ (ONE << i)
        h.requires(z3.ULT(i, 64))
        for v in (x, y):
            h.requires(And(Not(Q(v, ZERO)), Implies(z3.ULT(j, 64), Q(v, j + 1) == z3.Xor(Q(v, j), (v & (ONE << j)) != 0))))
        h.ensure("base", Q(y, ZERO) == z3.Xor(Q(x, ZERO), z3.ULT(i, ZERO)))
        h.requires(z3.ULT(j, 64))
        h.ensure("step", Implies(Q(y, j) == z3.Xor(Q(x, j), z3.ULT(i, j)), Q(y, j + 1) == z3.Xor(Q(x, j + 1), z3.ULT(i, j + 1))))
    T("lemma: flipping a bit changes the parities above it", below, [])
    from . import c03
    return out + [t for t in c03.tasks() if t.name.startswith("matrix of")]
