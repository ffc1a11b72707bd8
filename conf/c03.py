"""C03: operator algebra is faithful."""
import numpy as np
from conf.harness import sections
from conf import fermion as F
from HamiltonianPy.quantumoperator import AoC, ParticleTerm, NumberOperator, StateID
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION

NUMS = [2, -1.5, 0.5 + 1j, -2j, np.float64(1.25), np.int64(3), np.complex128(1 - 2j), 0, 1, np.float32(0.5), 1e-13, 4e-15j, 3e7, -2e9 + 1j, 5e12j]


def near(x, y):
    return abs(complex(x) - y) <= 1e-12 * abs(y)


def close(a, b):
    """Entry by entry, in proportion: a small coefficient counts as much as a large one."""
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * np.abs(b)))


def key(a):
    return (a.otype, tuple(a.coordinate), a.spin, a.orbit)


def snap(x):
    if isinstance(x, AoC):
        return ("AoC", key(x))
    if isinstance(x, NumberOperator):
        return ("N", tuple(x.coordinate), x.spin, x.orbit)
    if isinstance(x, ParticleTerm):
        return ("T", tuple(key(a) for a in x.components), x.coeff, x.classification)
    return ("num", x)


def denote(x):
    """(operator string, coefficient) of a factor."""
    if isinstance(x, AoC):
        return (key(x),), 1.0
    if isinstance(x, NumberOperator):
        s = (tuple(x.coordinate), x.spin, x.orbit)
        return ((CREATION,) + s, (ANNIHILATION,) + s), 1.0
    if isinstance(x, ParticleTerm):
        return tuple(key(a) for a in x.components), x.coeff
    return (), x


def rand_factor(rng, states):
    r = rng.random()
    s = rng.choice(states)
    if r < 0.35:
        return AoC(rng.choice([CREATION, ANNIHILATION]), site=s[0], spin=s[1], orbit=s[2])
    if r < 0.5:
        return NumberOperator(site=s[0], spin=s[1], orbit=s[2])
    if r < 0.75:
        return ParticleTerm([AoC(rng.choice([CREATION, ANNIHILATION]), site=t[0], spin=t[1], orbit=t[2])
                             for t in [rng.choice(states) for _ in range(rng.randint(1, 4))]],
                            coeff=rng.choice(NUMS), classification="general")
    if r < 0.85:
        t = rng.choice(states)
        return ParticleTerm([AoC(CREATION, site=t[0], spin=t[1], orbit=t[2]), AoC(ANNIHILATION, site=t[0], spin=t[1], orbit=t[2])],
                            coeff=rng.choice(NUMS), classification="number")
    return rng.choice(NUMS)


def states_of(rng, k=3):
    out = []
    while len(out) < k:
        s = ((rng.randint(-2, 2), rng.randint(-2, 2) * 0.5), rng.randint(0, 1), rng.randint(0, 1))
        if s not in out:
            out.append(s)
    return out


def dense(term, table, basis):
    return term.matrix_repr(table, basis).toarray()


def products(rep):
    rng = rep.rng
    for i in rep.rounds(1500):
        states = states_of(rng)
        table = IndexTable([StateID(site=s[0], spin=s[1], orbit=s[2]) for s in states])
        basis = F.u64(range(8))
        a, b = rand_factor(rng, states), rand_factor(rng, states)
        num = lambda x: not isinstance(x, (AoC, NumberOperator, ParticleTerm))
        if num(a) and num(b):
            continue
        if num(a) and isinstance(a, np.generic) and False:
            continue
        sa, sb = snap(a), snap(b)
        if isinstance(a, NumberOperator) and isinstance(b, NumberOperator) or \
                isinstance(b, NumberOperator) and isinstance(a, (AoC, ParticleTerm)):
            pass
        try:
            p = a * b
        except TypeError as e:
            rep.fail("product/type", "a*b raised %s" % e, a=a, b=b)
            continue
        if not rep.expect(isinstance(p, ParticleTerm), "product/result", "a*b is %r" % (type(p),), a=a, b=b):
            continue
        (oa, ca), (ob, cb) = denote(a), denote(b)
        rep.case((sa[0], sb[0], oa, ob))
        rep.expect(tuple(key(x) for x in p.components) == oa + ob, "product/string", "components %r" % (p.components,), a=a, b=b)
        rep.expect(near(p.coeff, complex(ca) * complex(cb)), "product/coeff", "coeff %r" % (p.coeff,), a=a, b=b)
        rep.expect(snap(a) == sa and snap(b) == sb, "product/frame", "an operand changed", a=a, b=b)
        rep.expect(p.check_compatibility(), "product/classification", "incompatible classification %r" % p.classification, a=a, b=b)
        if i % 5 == 0:
            ma = ca * np.eye(8) if num(a) else dense(a if isinstance(a, ParticleTerm) else a * 1, table, basis)
            mb = cb * np.eye(8) if num(b) else dense(b if isinstance(b, ParticleTerm) else b * 1, table, basis)
            rep.expect(close(dense(p, table, basis), ma @ mb), "product/matrix", "matrix of the product differs", a=str(a), b=str(b))
        # chained products and the results stay independent of later changes
        c = rand_factor(rng, states)
        q = p * c
        oc, cc = denote(c)
        if isinstance(q, ParticleTerm):
            rep.expect(tuple(key(x) for x in q.components) == oa + ob + oc, "product3/string", "", a=a, b=b, c=c)
            rep.expect(near(q.coeff, complex(ca) * complex(cb) * complex(cc)), "product3/coeff", q.coeff, a=a, b=b, c=c)
            q.coeff = 17.5
            rep.expect(near(p.coeff, complex(ca) * complex(cb)), "product/isolated", "changing the product's coeff changed a factor")
        r = c * p
        if isinstance(r, ParticleTerm):
            rep.expect(tuple(key(x) for x in r.components) == oc + oa + ob, "product3/left", "", a=a, b=b, c=c)
            rep.expect(near(r.coeff, complex(ca) * complex(cb) * complex(cc)), "product3/leftcoeff", r.coeff, a=a, b=b, c=c)


def daggers(rep):
    rng = rep.rng
    for i in rep.rounds(500):
        states = states_of(rng)
        table = IndexTable([StateID(site=s[0], spin=s[1], orbit=s[2]) for s in states])
        basis = F.u64(range(8))
        t = ParticleTerm([AoC(rng.choice([CREATION, ANNIHILATION]), site=s[0], spin=s[1], orbit=s[2])
                          for s in [rng.choice(states) for _ in range(rng.randint(1, 5))]], coeff=rng.choice(NUMS))
        s0 = snap(t)
        d = t.dagger()
        rep.case(s0[1])
        want = tuple((CREATION if k[0] == ANNIHILATION else ANNIHILATION,) + k[1:] for k in reversed(s0[1]))
        rep.expect(tuple(key(x) for x in d.components) == want, "dagger/string", d.components, t=str(t))
        rep.expect(complex(d.coeff) == complex(t.coeff).conjugate(), "dagger/coeff", d.coeff, t=str(t))
        rep.expect(close(dense(d, table, basis), dense(t, table, basis).conj().T), "dagger/matrix", "not the adjoint matrix", t=str(t))
        dd = d.dagger()
        rep.expect(tuple(key(x) for x in dd.components) == s0[1] and complex(dd.coeff) == complex(t.coeff), "dagger/involution", str(dd), t=str(t))
        rep.expect(snap(t) == s0, "dagger/frame", "operand changed", t=str(t))
        old = t.coeff
        t.coeff = rng.choice([x for x in NUMS if x != old])
        d3 = t.dagger()
        rep.expect(complex(d3.coeff) == complex(t.coeff).conjugate() and tuple(key(x) for x in d3.components) == want, "dagger/again", d3.coeff, t=str(t))
        d3.coeff = 5
        rep.expect(complex(t.dagger().coeff) == complex(t.coeff).conjugate(), "dagger/isolated", "", t=str(t))
        t.coeff = old
        a = t.components[0]
        ka = key(a)
        da = a.dagger()
        rep.expect(key(da) == (1 - ka[0],) + ka[1:] and key(a) == ka and da.dagger() == a, "aoc/dagger", da, a=a)
        rep.expect(np.allclose(da.matrix_repr(table, basis).toarray(), a.matrix_repr(table, basis).toarray().conj().T), "aoc/dagger/matrix", "", a=a)
        n = NumberOperator(site=states[0][0], spin=states[0][1], orbit=states[0][2])
        rep.expect(n.dagger() == n, "number/dagger", n.dagger())
        nt = n.toterm()
        rep.expect(denote(nt) == denote(n), "number/toterm", str(nt))
        rep.expect(np.allclose(dense(nt, table, basis), n.matrix_repr(table, basis).toarray()), "number/matrix", "")
        for cls in ("hopping", "number", "Coulomb"):
            s, u = states[0], states[1]
            mk = lambda o, s: AoC(o, site=s[0], spin=s[1], orbit=s[2])
            ops = {"hopping": [(CREATION, s), (ANNIHILATION, u)], "number": [(CREATION, s), (ANNIHILATION, s)],
                   "Coulomb": [(CREATION, s), (ANNIHILATION, s), (CREATION, u), (ANNIHILATION, u)]}[cls]
            t = ParticleTerm([mk(*x) for x in ops], coeff=1.5 - 2j, classification=cls)
            s0 = snap(t)
            d = t.dagger()
            want = tuple((CREATION if k[0] == ANNIHILATION else ANNIHILATION,) + k[1:] for k in reversed(s0[1]))
            rep.expect(tuple(key(x) for x in d.components) == want, "dagger/string/" + cls, d.components, t=str(t))
            rep.expect(complex(d.coeff) == 1.5 + 2j, "dagger/coeff/" + cls, d.coeff, t=str(t))
            rep.expect(d.check_compatibility(), "dagger/classification/" + cls, d.classification, t=str(t))
            rep.expect(snap(t) == s0, "dagger/frame/" + cls, "operand changed", t=str(t))
            dd = d.dagger()
            rep.expect(tuple(key(x) for x in dd.components) == s0[1] and complex(dd.coeff) == complex(t.coeff), "dagger/involution/" + cls, str(dd), t=str(t))
            rep.expect(close(dense(d, table, basis), dense(t, table, basis).conj().T), "dagger/matrix/" + cls, str(d))


def car(rep):
    rng = rep.rng
    for i in rep.rounds(60):
        k = rng.randint(1, 4)
        states = states_of(rng, k)
        start = 0
        order = list(states)
        rng.shuffle(order)
        table = IndexTable([StateID(site=s[0], spin=s[1], orbit=s[2]) for s in order])
        basis = F.u64(range(1 << k))
        I = np.eye(1 << k)
        c = [AoC(CREATION, site=s[0], spin=s[1], orbit=s[2]).matrix_repr(table, basis).toarray() for s in states]
        a = [AoC(ANNIHILATION, site=s[0], spin=s[1], orbit=s[2]).matrix_repr(table, basis).toarray() for s in states]
        rep.case((k, tuple(order)))
        for p in range(k):
            for q in range(k):
                rep.expect(np.allclose(c[p] @ a[q] + a[q] @ c[p], I if p == q else 0), "car/mixed", "", p=order, q=q)
                rep.expect(np.allclose(c[p] @ c[q] + c[q] @ c[p], 0), "car/cc", "", p=p, q=q)
                rep.expect(np.allclose(a[p] @ a[q] + a[q] @ a[p], 0), "car/aa", "", p=p, q=q)


def run(rep):
    sections(rep, products, daggers, car)
