"""C02: specialised classifications equal the general computation."""
import itertools
from conf.harness import sections
from conf import fermion as F
from conf.c01 import compare, choose_bases
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator import AoC, ParticleTerm, NumberOperator, StateID
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION


def form(rng, bits, tag):
    if tag == "hopping":
        i, j = rng.sample(bits, 2)
        return [(i, True), (j, False)]
    i, j = rng.choice(bits), rng.choice(bits)
    if tag == "number":
        return [(i, True), (i, False)]
    return [(i, True), (i, False), (j, True), (j, False)]


def direct(rep):
    rng = rep.rng
    for r in rep.rounds(1500):
        bits = F.rand_bits(rng, rng.randint(2, 7))
        for tag in ("hopping", "number", "Coulomb"):
            string = form(rng, bits, tag)
            right, left = choose_bases(rng, bits, string)
            coeff = rng.choice(F.COEFFS)
            term = [(b, F.otype(cr)) for b, cr in string]
            for t in (tag, "general"):
                compare(rep, lambda to_csr, l: matrix_function(
                    term, right, left_bases=l, coeff=coeff, to_csr=to_csr, special_tag=t),
                    string, right, left, coeff, "matrix_function/" + tag, tag=t)


def hopping_all(rep):
    """All pairs of bits of a 64-bit word with a few spectators, both directions."""
    rng = rep.rng
    pairs = [(i, j) for i in range(64) for j in range(64) if i != j]
    rng.shuffle(pairs)
    for n, (i, j) in enumerate(pairs):
        if n > 600 and not rep.left():
            return
        lo, hi = min(i, j), max(i, j)
        spect = [b for b in {lo - 1, lo + 1, (lo + hi) // 2, hi - 1, hi + 1, 0, 63} if 0 <= b < 64 and b not in (i, j)]
        kets = set()
        for _ in range(6):
            v = 0
            for b in spect:
                if rng.random() < 0.5:
                    v |= 1 << b
            kets |= {v | 1 << i, v | 1 << j}
        basis = F.u64(kets)
        string = [(i, True), (j, False)]
        term = [(b, F.otype(cr)) for b, cr in string]
        compare(rep, lambda to_csr, l: matrix_function(term, basis, to_csr=to_csr, special_tag="hopping"),
                string, basis, None, 1.0, "hopping/pairs")


def objects(rep):
    rng = rep.rng
    for i in rep.rounds(400):
        k = rng.randint(2, 5)
        states = []
        while len(states) < k:
            s = StateID(site=(rng.randint(-3, 3),), spin=rng.randint(0, 1), orbit=rng.randint(0, 1))
            if all(not (s == t) for t in states):
                states.append(s)
        start = rng.choice([0, 0, 5, 58])
        table = IndexTable(states, start=start)
        bits = [start + j for j in range(k)]
        tag = rng.choice(["hopping", "number", "Coulomb"])
        string = form(rng, bits, tag)
        mk = lambda b, cr: AoC(F.otype(cr), site=states[b - start].coordinate, spin=states[b - start].spin, orbit=states[b - start].orbit)
        coeff = rng.choice(F.COEFFS)
        term = ParticleTerm([mk(*x) for x in string], coeff=coeff, classification=tag)
        right, left = choose_bases(rng, bits, string)
        compare(rep, lambda to_csr, l: term.matrix_repr(table, right, left_bases=l, to_csr=to_csr),
                string, right, left, coeff, "ParticleTerm/" + tag)
        rep.expect(term.check_compatibility() is True or term.check_compatibility() == True, "compat/true/" + tag,
                   "check_compatibility is not True", term=str(term))
        s = states[0]
        n = NumberOperator(site=s.coordinate, spin=s.spin, orbit=s.orbit)
        st = [(start, True), (start, False)]
        right, _ = choose_bases(rng, bits, st)
        compare(rep, lambda to_csr, l: n.matrix_repr(table, right, to_csr=to_csr), st, right, None, 1.0, "NumberOperator")


def compat(rep):
    """check_compatibility on every string of length <= 4 over 2-3 states."""
    ops = [(o, s) for o in (CREATION, ANNIHILATION) for s in ((0, 0), (1, 0), (0, 1))]
    mk = {x: AoC(x[0], site=(x[1][0],), spin=x[1][1]) for x in ops}
    strings = [()]
    for L in (1, 2, 3):
        strings += list(itertools.product(ops, repeat=L))
    four = list(itertools.product(ops, repeat=4))
    strings += four
    strings += [s + (ops[0],) for s in four[::7]]
    for s in strings:
        o = [x[0] for x in s]
        q = [x[1] for x in s]
        want = {
            "general": True,
            "hopping": o == [CREATION, ANNIHILATION] and q[0] != q[1],
            "number": o == [CREATION, ANNIHILATION] and q[0] == q[1],
            "Coulomb": o == [CREATION, ANNIHILATION] * 2 and q[0] == q[1] and q[2] == q[3],
        }
        for tag, w in want.items():
            got = ParticleTerm([mk[x] for x in s], classification=tag).check_compatibility()
            rep.case((s, tag) if w else None)
            rep.expect(bool(got) == w, "compat/" + tag, "answered %r, expected %r" % (got, w), string=s)


def run(rep):
    sections(rep, compat, objects, direct, hopping_all)
