"""C01: canonical Fock-space action."""
import itertools
import numpy as np
from conf.harness import sections
from conf import fermion as F
from HamiltonianPy.quantumoperator.matrixrepr import matrix_function
from HamiltonianPy.quantumoperator import AoC, ParticleTerm, NumberOperator, StateID
from HamiltonianPy.indextable import IndexTable


def compare(rep, call, string, right, left, coeff, key, **inp):
    """call(to_csr, left_or_None) -> result."""
    lb = right if left is None else left
    shape = (len(lb), len(right))
    inp.update(string=string, right=[int(x) for x in right], left=None if left is None else [int(x) for x in left], coeff=coeff)
    snap = (np.array(right), None if left is None else np.array(left))
    try:
        want = F.matrix(string, right, lb, coeff)
    except F.Missing:
        for to_csr in (True, False):
            rep.raises(KeyError, lambda: call(to_csr, left), key + "/keyerror",
                       "image outside the left basis", to_csr=to_csr, **inp)
        return
    rep.case((tuple(string), len(want), shape) if want else None)
    bad = F.same_csr(call(True, left), want, shape)
    rep.expect(bad is None, key + "/csr", bad, **inp)
    if coeff != 0:
        bad = F.same_triple(call(False, left), want)
        rep.expect(bad is None, key + "/triple", bad, **inp)
    rep.expect(np.array_equal(snap[0], right) and (left is None or np.array_equal(snap[1], left)),
               key + "/frame", "a basis array was modified", **inp)


def choose_bases(rng, bits, string):
    full = rng.random() < 0.5 and len(bits) <= 6
    right = F.u64(F.rand_basis(rng, bits, rng.randint(1, 24), full))
    mode = rng.random()
    if mode < 0.35:
        return right, None
    images = set()
    for k in right:
        r = F.act(string, int(k))
        if r:
            images.add(r[0])
    left = set(images)
    for b in F.rand_basis(rng, bits, rng.randint(0, 12)):
        left.add(b)
    if mode > 0.8 and images:
        left.discard(rng.choice(sorted(images)))
    if not left and rng.random() < 0.5:
        left = {0}
    return right, F.u64(left)


def direct(rep):
    rng = rep.rng
    for i in rep.rounds(1500):
        bits = F.rand_bits(rng, rng.randint(1, 7))
        L = rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 5, 6, 8]) if rng.random() < 0.9 else 11
        L = max(L, 1)
        string = F.rand_string(rng, bits, L)
        right, left = choose_bases(rng, bits, string)
        coeff = rng.choice(F.COEFFS)
        term = [(b, F.otype(cr)) for b, cr in string]
        if rng.random() < 0.5:
            term = tuple(term)
        compare(rep, lambda to_csr, l: matrix_function(term, right, left_bases=l, coeff=coeff, to_csr=to_csr),
                string, right, left, coeff, "matrix_function")


def dense_small(rep):
    """Every string of length <= 3 on 3 states, on the full basis."""
    right = F.u64(range(8))
    for L in (1, 2, 3):
        for string in itertools.product([(b, c) for b in range(3) for c in (True, False)], repeat=L):
            string = list(string)
            term = [(b, F.otype(cr)) for b, cr in string]
            compare(rep, lambda to_csr, l: matrix_function(term, right, left_bases=l, coeff=-1.5, to_csr=to_csr),
                    string, right, None, -1.5, "small")


def big_basis(rep):
    rng = rep.rng
    for i in rep.rounds(6, 40):
        bits = sorted(rng.sample(range(0, 20), 11))
        right = F.u64(F.rand_basis(rng, bits, 0, True))
        string = F.rand_string(rng, bits, rng.choice([2, 3, 4]))
        term = [(b, F.otype(cr)) for b, cr in string]
        compare(rep, lambda to_csr, l: matrix_function(term, right, left_bases=l, coeff=0.5j, to_csr=to_csr),
                string, right, None, 0.5j, "big")


def objects(rep):
    """AoC.matrix_repr and ParticleTerm.matrix_repr through index tables."""
    rng = rep.rng
    for i in rep.rounds(500):
        k = rng.randint(1, 6)
        states = []
        while len(states) < k:
            s = StateID(site=(rng.randint(-3, 3), rng.randint(-3, 3) / 2), spin=rng.randint(0, 1), orbit=rng.randint(0, 2))
            if all(not (s == t) for t in states):
                states.append(s)
        start = rng.choice([0, 0, 3, 30, 57])
        table = IndexTable(states, start=start)
        bits = [start + j for j in range(k)]
        string = F.rand_string(rng, bits, rng.randint(1, 5))
        aocs = [AoC(F.otype(cr), site=states[b - start].coordinate, spin=states[b - start].spin,
                    orbit=states[b - start].orbit) for b, cr in string]
        right, left = choose_bases(rng, bits, string)
        coeff = rng.choice(F.COEFFS)
        term = ParticleTerm(aocs, coeff=coeff)
        compare(rep, lambda to_csr, l: term.matrix_repr(table, right, left_bases=l, to_csr=to_csr),
                string, right, left, coeff, "ParticleTerm")
        other = rng.choice(list(F.COEFFS) + [0, 0.0])
        compare(rep, lambda to_csr, l: ParticleTerm(aocs, coeff=coeff).matrix_repr(
            table, right, left_bases=l, to_csr=to_csr, coeff=other), string, right, left, other, "ParticleTerm/coeff")
        # the same term again: no state may leak between calls
        compare(rep, lambda to_csr, l: term.matrix_repr(table, right, left_bases=l, to_csr=to_csr),
                string, right, left, coeff, "ParticleTerm/again")
        one = string[:1]
        right1, left1 = choose_bases(rng, bits, one)
        compare(rep, lambda to_csr, l: aocs[0].matrix_repr(table, right1, left_bases=l, to_csr=to_csr),
                one, right1, left1, 1.0, "AoC")


def run(rep):
    sections(rep, dense_small, direct, objects, big_basis)
