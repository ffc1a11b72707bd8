"""C10: factories build the advertised terms."""
from .base import *
from .c11 import FP
from .c07 import site, label

FA = "HamiltonianPy.quantumoperator.factory"
QS = "HamiltonianPy.quantumoperator.quantumstate"
Z = 10000


def cells(v):
    from pyvc.sym import trunc
    return [trunc(S(zr(mul(Z, x)))) for x in v]


def same(a, b):
    return And([eqz(x, y) for x, y in zip(a, b)] + [z3.BoolVal(len(a) == len(b))])


def coeff(h):
    k = h.choose(["default", "real", "complex", "int"], "coeff")
    if k == "default":
        return {}, 1.0
    c = {"real": h.real, "complex": h.cx, "int": h.int}[k]("c")
    return {"coeff": c}, c


def aoc_is(h, a, otype, v, spin, orbit):
    return And(z3.BoolVal(h.attr(a, "otype") == otype), h.value_eq(h.attr(a, "coordinate"), tuple(v)), h.eq(h.attr(a, "spin"), spin), h.eq(h.attr(a, "orbit"), orbit))


def term_is(h, t, want, c, form, exact_class=None):
    PT = h.get(FA, "ParticleTerm")
    h.ensure("the result is a ParticleTerm", h.rt.isinstance(t, PT) is True)
    comps = h.attr(t, "components")
    h.ensure("number of operators", len(comps) == len(want))
    if len(comps) != len(want):
        raise PathEnd()
    for i, w in enumerate(want):
        h.ensure("operator %d has the documented type and state" % i, aoc_is(h, comps[i], *w))
    h.ensure("coefficient", h.value_eq(h.attr(t, "coeff"), c))
    cl = h.attr(t, "classification")
    h.ensure("classification matches the form", form.get(cl, z3.BoolVal(False)))
    h.ensure("check_compatibility accepts the term", formula(h.meth(t, "check_compatibility")))


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [FA + "." + f for f in functions], modules=[FA], assumes=[FP], **kw))

    def two(h):
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        return v, p, w, q, [label(h, n) for n in ("s0", "s1", "o0", "o1")]

    def T3(h):
        return h.get(FA, "CREATION"), h.get(FA, "ANNIHILATION")

    def single(h):
        C, A = T3(h)
        v, p, _, _, (s, _, o, _) = two(h)
        full = h.choose([True, False], "labels")
        kw = {"spin": s, "orbit": o} if full else {}
        if not full:
            s = o = 0
        h.ensure("Creator", aoc_is(h, h.call(h.get(FA, "Creator"), p, **kw), C, v, s, o))
        h.ensure("Annihilator", aoc_is(h, h.call(h.get(FA, "Annihilator"), p, **kw), A, v, s, o))
        ckw, c = coeff(h)
        t = h.call(h.get(FA, "CPFactory"), p, **kw, **ckw)
        term_is(h, t, [(C, v, s, o), (A, v, s, o)], c, {"number": z3.BoolVal(True), "general": z3.BoolVal(True)})
        okw = {"orbit": o} if full else {}
        UP, DN = h.get(FA, "SPIN_UP"), h.get(FA, "SPIN_DOWN")
        t = h.call(h.get(FA, "HubbardFactory"), p, **okw, **ckw)
        term_is(h, t, [(C, v, UP, o), (A, v, UP, o), (C, v, DN, o), (A, v, DN, o)], c, {"Coulomb": z3.BoolVal(True), "general": z3.BoolVal(True)})
    T("Creator, Annihilator, chemical potential, Hubbard", single, ["Creator", "Annihilator", "CPFactory", "HubbardFactory"], max_paths=1000)

    def hopping(h):
        C, A = T3(h)
        v, p, w, q, (s0, s1, o0, o1) = two(h)
        kw = {}
        e_s, e_o, e_s0, e_o0 = 0, 0, 0, 0
        if h.choose([True, False], "first"):
            kw.update(spin0=s0, orbit0=o0)
            e_s = e_s0 = s0
            e_o = e_o0 = o0
        if h.choose([True, False], "spin1"):
            kw["spin1"] = e_s = s1
        if h.choose([True, False], "orbit1"):
            kw["orbit1"] = e_o = o1
        ckw, c = coeff(h)
        t = h.call(h.get(FA, "HoppingFactory"), p, q, **kw, **ckw)
        eq_ = And(same(cells(v), cells(w)), eqz(e_s0, e_s), eqz(e_o0, e_o))
        term_is(h, t, [(C, v, e_s0, e_o0), (A, w, e_s, e_o)], c, {"hopping": Not(eq_), "number": eq_, "general": z3.BoolVal(True)})
    T("hopping", hopping, ["HoppingFactory"], max_paths=3000, budget=200)

    def pairing(h):
        C, A = T3(h)
        v, p, w, q, (s0, s1, o0, o1) = two(h)
        kw = {}
        if h.choose([True, False], "labels"):
            kw = dict(spin0=s0, spin1=s1, orbit0=o0, orbit1=o1)
        else:
            s0 = s1 = o0 = o1 = 0
        which = h.choose([None, "h", "hole", "p", "particle"], "which")
        ckw, c = coeff(h)
        wkw = {} if which is None else {"which": which}
        t = h.call(h.get(FA, "PairingFactory"), p, q, **kw, **ckw, **wkw)
        ot = C if which in ("p", "particle") else A
        term_is(h, t, [(ot, v, s0, o0), (ot, w, s1, o1)], c, {"general": z3.BoolVal(True)})
    T("pairing", pairing, ["PairingFactory"], max_paths=3000, budget=200)

    def coulomb(h):
        C, A = T3(h)
        v, p, w, q, (s0, s1, o0, o1) = two(h)
        kw = {}
        if h.choose([True, False], "labels"):
            kw = dict(spin0=s0, spin1=s1, orbit0=o0, orbit1=o1)
        else:
            s0 = s1 = o0 = o1 = 0
        ckw, c = coeff(h)
        t = h.call(h.get(FA, "CoulombFactory"), p, q, **kw, **ckw)
        term_is(h, t, [(C, v, s0, o0), (A, v, s0, o0), (C, w, s1, o1), (A, w, s1, o1)], c, {"Coulomb": z3.BoolVal(True), "general": z3.BoolVal(True)})
    T("Coulomb", coulomb, ["CoulombFactory"], max_paths=1000)

    def spin_is(h, t, v, w, a, b, c):
        """A term equal to c * S_a(v) S_b(w): same operators; the order kept when the sites coincide."""
        SI = h.get(FA, "SpinInteraction")
        h.ensure("the result is a SpinInteraction", h.rt.isinstance(t, SI) is True)
        comps = h.attr(t, "components")
        h.ensure("two operators", len(comps) == 2)
        if len(comps) != 2:
            raise PathEnd()
        def is_(o, ot, x):
            return And(z3.BoolVal(h.attr(o, "otype") == ot), h.value_eq(h.attr(o, "coordinate"), tuple(x)))
        straight = And(is_(comps[0], a, v), is_(comps[1], b, w))
        swapped = And(is_(comps[0], b, w), is_(comps[1], a, v), Not(same(cells(v), cells(w))))
        h.ensure("the documented operators in an equivalent order (%s%s)" % (a, b), Or(straight, swapped))
        h.ensure("coefficient", h.value_eq(h.attr(t, "coeff"), c))

    def heis(h):
        v, p, w, q, _ = two(h)
        ckw, c = coeff(h)
        r = h.call(h.get(FA, "HeisenbergFactory"), p, q, **ckw)
        h.ensure("three terms", isinstance(r, (tuple, list)) and len(r) == 3)
        half = arith("/", c, 2)
        for t, (a, b, k) in zip(r, (("z", "z", c), ("p", "m", half), ("m", "p", half))):
            spin_is(h, t, v, w, a, b, k)
    T("Heisenberg", heis, ["HeisenbergFactory"], max_paths=1000)

    def ising(h):
        v, p, w, q, _ = two(h)
        ckw, c = coeff(h)
        a = h.choose(["x", "y", "z"], "a")
        spin_is(h, h.call(h.get(FA, "IsingFactory"), p, q, a, **ckw), v, w, a, a, c)
        b = h.choose(["x", "y", "z"], "b")
        spin_is(h, h.call(h.get(FA, "TwoSpinTermFactory"), p, q, a, b, **ckw), v, w, a, b, c)
    T("Ising and two-spin terms", ising, ["IsingFactory", "TwoSpinTermFactory"], max_paths=3000, budget=200)

    def bad(h):
        v, p, w, q, _ = two(h)
        o = h.outcome(h.get(FA, "PairingFactory"), p, q, which="x")
        h.ensure("unknown pairing kind is rejected", o[0] == "raise")
        o = h.outcome(h.get(FA, "IsingFactory"), p, q, h.choose(["p", "m", "w"], "k"))
        h.ensure("Ising operators are x, y or z", o[0] == "raise")
        o = h.outcome(h.get(FA, "TwoSpinTermFactory"), p, q, *h.choose([("p", "x"), ("x", "m")], "k2"))
        h.ensure("two-spin operators are x, y or z", o[0] == "raise")
    T("rejections", bad, ["PairingFactory", "IsingFactory", "TwoSpinTermFactory"])
    return out
