"""C10: factories."""
import itertools
from conf.harness import sections
import HamiltonianPy.quantumoperator.factory as FA
from HamiltonianPy.quantumoperator import AoC, ParticleTerm, SpinOperator, SpinInteraction
from HamiltonianPy.quantumoperator.constant import CREATION as C, ANNIHILATION as A, SPIN_UP, SPIN_DOWN
from conf.c08 import COEFFS


def key(a):
    return (a.otype, tuple(a.coordinate), a.spin, a.orbit)


def pt(rep, t, want, coeff, cls, key_, **inp):
    rep.case((key_, tuple(want), cls))
    if not rep.expect(isinstance(t, ParticleTerm), key_ + "/type", type(t), **inp):
        return
    rep.expect([key(a) for a in t.components] == want, key_ + "/string", str(t), want=want, **inp)
    rep.expect(t.coeff == coeff, key_ + "/coeff", t.coeff, coeff=coeff, **inp)
    rep.expect(t.classification == cls, key_ + "/classification", t.classification, want=cls, **inp)
    rep.expect(t.check_compatibility(), key_ + "/compatible", "", **inp)


def fermi(rep):
    rng = rep.rng
    for i in rep.rounds(800):
        dim = rng.randint(1, 3)
        s0 = tuple(rng.choice([-1, 0, 1, 0.5]) for _ in range(dim))
        s1 = s0 if rng.random() < 0.4 else tuple(rng.choice([-1, 0, 1, 0.5]) for _ in range(dim))
        alike = i % 8 == 5                  # the same site to the precision of the package
        if alike:
            s1 = tuple(x + rng.choice([3e-5, 1e-6, 0.0]) * (-1 if x < 0 else 1) for x in s0)
        sp0, sp1, o0, o1 = [rng.randint(0, 2) for _ in range(4)]
        c = rng.choice(COEFFS)
        inp = dict(s0=s0, s1=s1, sp=(sp0, sp1), o=(o0, o1), c=c)
        cr, an = FA.Creator(s0, sp0, o0), FA.Annihilator(s0, spin=sp0, orbit=o0)
        rep.expect(isinstance(cr, AoC) and key(cr) == (C, s0, sp0, o0), "Creator", cr, **inp)
        rep.expect(isinstance(an, AoC) and key(an) == (A, s0, sp0, o0), "Annihilator", an, **inp)
        rep.expect(key(FA.Creator(s0)) == (C, s0, 0, 0) and key(FA.Annihilator(s0)) == (A, s0, 0, 0), "Creator/default", "", **inp)
        pt(rep, FA.CPFactory(s0, spin=sp0, orbit=o0, coeff=c), [(C, s0, sp0, o0), (A, s0, sp0, o0)], c, "number", "CP", **inp)
        pt(rep, FA.CPFactory(s0), [(C, s0, 0, 0), (A, s0, 0, 0)], 1.0, "number", "CP/default", **inp)
        for give_s, give_o in itertools.product((False, True), repeat=2):
            kw = {}
            e_s, e_o = sp0, o0
            if give_s:
                kw["spin1"] = e_s = sp1
            if give_o:
                kw["orbit1"] = e_o = o1
            same = (s0 == s1 or alike) and e_s == sp0 and e_o == o0
            pt(rep, FA.HoppingFactory(s0, s1, spin0=sp0, orbit0=o0, coeff=c, **kw),
               [(C, s0, sp0, o0), (A, s1, e_s, e_o)], c, "number" if same else "hopping", "Hopping", kw=kw, **inp)
        pt(rep, FA.HoppingFactory(s0, s1), [(C, s0, 0, 0), (A, s1, 0, 0)], 1.0, "number" if s0 == s1 or alike else "hopping", "Hopping/default", **inp)
        for which in ("h", "hole", "p", "particle"):
            ot = A if which[0] == "h" else C
            pt(rep, FA.PairingFactory(s0, s1, spin0=sp0, spin1=sp1, orbit0=o0, orbit1=o1, coeff=c, which=which),
               [(ot, s0, sp0, o0), (ot, s1, sp1, o1)], c, "general", "Pairing/" + which, **inp)
        pt(rep, FA.PairingFactory(s0, s1), [(A, s0, 0, 0), (A, s1, 0, 0)], 1.0, "general", "Pairing/default", **inp)
        rep.raises(AssertionError, lambda: FA.PairingFactory(s0, s1, which="x"), "Pairing/reject", "")
        pt(rep, FA.HubbardFactory(s0, orbit=o0, coeff=c),
           [(C, s0, SPIN_UP, o0), (A, s0, SPIN_UP, o0), (C, s0, SPIN_DOWN, o0), (A, s0, SPIN_DOWN, o0)], c, "Coulomb", "Hubbard", **inp)
        pt(rep, FA.HubbardFactory(s0),
           [(C, s0, SPIN_UP, 0), (A, s0, SPIN_UP, 0), (C, s0, SPIN_DOWN, 0), (A, s0, SPIN_DOWN, 0)], 1.0, "Coulomb", "Hubbard/default", **inp)
        pt(rep, FA.CoulombFactory(s0, s1, spin0=sp0, spin1=sp1, orbit0=o0, orbit1=o1, coeff=c),
           [(C, s0, sp0, o0), (A, s0, sp0, o0), (C, s1, sp1, o1), (A, s1, sp1, o1)], c, "Coulomb", "Coulomb", **inp)
        pt(rep, FA.CoulombFactory(s0, s1), [(C, s0, 0, 0), (A, s0, 0, 0), (C, s1, 0, 0), (A, s1, 0, 0)], 1.0, "Coulomb", "Coulomb/default", **inp)


def si(rep, t, ops, coeff, key_, **inp):
    """ops in any order over distinct sites; same site keeps the order."""
    rep.case((key_, tuple(ops)))
    if not rep.expect(isinstance(t, SpinInteraction), key_ + "/type", type(t), **inp):
        return
    got = [(o.otype, tuple(o.coordinate)) for o in t.components]
    ok = sorted(got) == sorted(ops) and (ops[0][1] != ops[1][1] or got == ops)
    rep.expect(ok, key_ + "/operators", got, want=ops, **inp)
    rep.expect(t.coeff == coeff, key_ + "/coeff", t.coeff, want=coeff, **inp)


def spins(rep):
    rng = rep.rng
    for i in rep.rounds(500):
        dim = rng.randint(1, 3)
        s0 = tuple(rng.choice([-1, 0, 1, 0.5]) for _ in range(dim))
        s1 = s0 if rng.random() < 0.2 else tuple(rng.choice([-1, 0, 1, 0.5]) for _ in range(dim))
        c = rng.choice(COEFFS)
        inp = dict(s0=s0, s1=s1, c=c)
        for kw, cc in ((dict(coeff=c), c), ({}, 1.0)):
            t = FA.HeisenbergFactory(s0, s1, **kw)
            if rep.expect(len(t) == 3, "Heisenberg/length", t, **inp):
                want = {"zz": ([("z", s0), ("z", s1)], cc), "pm": ([("p", s0), ("m", s1)], cc / 2), "mp": ([("m", s0), ("p", s1)], cc / 2)}
                for term in t:
                    d = {tuple(o.coordinate): o.otype for o in term.components}
                    k = (d.get(s0, "") + d.get(s1, "")) if s0 != s1 else "".join(o.otype for o in term.components)
                    if rep.expect(k in want, "Heisenberg/parts", k, **inp):
                        ops, c_ = want.pop(k)
                        si(rep, term, ops, c_, "Heisenberg/" + k, **inp)
                rep.expect(not want, "Heisenberg/missing", list(want), **inp)
            for a in "xyz":
                si(rep, FA.IsingFactory(s0, s1, a, **kw), [(a, s0), (a, s1)], cc, "Ising", **inp)
                for b in "xyz":
                    si(rep, FA.TwoSpinTermFactory(s0, s1, a, b, **kw), [(a, s0), (b, s1)], cc, "TwoSpin", ab=a + b, **inp)
        rep.raises(AssertionError, lambda: FA.IsingFactory(s0, s1, "p"), "Ising/reject", "")
        rep.raises(AssertionError, lambda: FA.TwoSpinTermFactory(s0, s1, "x", "m"), "TwoSpin/reject", "")


def run(rep):
    sections(rep, fermi, spins)
