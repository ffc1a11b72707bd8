"""C08: spin matrices are ordered tensor products."""
import itertools
import numpy as np
from conf.harness import sections
from HamiltonianPy.quantumoperator import SpinOperator, SpinInteraction, SiteID
from HamiltonianPy.indextable import IndexTable

S = {"x": np.array([[0, .5], [.5, 0]], dtype=complex), "y": np.array([[0, -.5j], [.5j, 0]]), "z": np.diag([.5, -.5]).astype(complex),
     "p": np.array([[0, 1], [0, 0]], dtype=complex), "m": np.array([[0, 0], [1, 0]], dtype=complex)}
COEFFS = [1.0, -2, 0.5 + 1j, -1j, np.float64(0.3), np.complex128(2 - 1j), 3]
EXTREME = COEFFS + [1e-13, -2e-15j, 3e14]


def factors(ops, n):
    """2x2 factor per site; operators on one site in the written order."""
    f = [np.eye(2, dtype=complex) for _ in range(n)]
    for i, o in ops:
        f[i] = f[i] @ S[o]
    return f


def entries(ops, n, coeff):
    """Sparse dict of coeff * kron(f[n-1], ..., f[0]), built entry by entry."""
    f = factors(ops, n)
    cur = {(0, 0): complex(coeff)}
    for i in range(n):
        nz = [(r, c, f[i][r, c]) for r in (0, 1) for c in (0, 1) if f[i][r, c] != 0]
        cur = {(R | r << i, C | c << i): v * w for (R, C), v in cur.items() for r, c, w in nz}
    return cur


def same(m, want, n):
    if m.shape != (1 << n, 1 << n):
        return "shape %r" % (m.shape,)
    co = m.tocoo()
    got = {}
    for r, c, v in zip(co.row, co.col, co.data):
        got[(int(r), int(c))] = got.get((int(r), int(c)), 0) + complex(v)
    for k in set(got) | set(want):
        if abs(got.get(k, 0) - want.get(k, 0)) > 1e-12 * abs(want.get(k, 0)):
            return "entry %r: %r, expected %r" % (k, got.get(k, 0), want.get(k, 0))
    return None


def single(rep):
    for n in range(1, 8):
        for i in range(n):
            for o in S:
                rep.case((n, i, o))
                bad = same(SpinOperator.matrix_function((i, o), n), entries([(i, o)], n, 1), n)
                rep.expect(bad is None, "operator", bad, n=n, i=i, o=o)
                bad = same(SpinInteraction.matrix_function([(i, o)], n, 2.5), entries([(i, o)], n, 2.5), n)
                rep.expect(bad is None, "interaction/one", bad, n=n, i=i, o=o)


def pairs(rep):
    rng = rep.rng
    for n in range(1, 6):
        for (i, j) in itertools.product(range(n), repeat=2):
            for (a, b) in itertools.product(S, repeat=2):
                c = rng.choice(COEFFS)
                ops = [(i, a), (j, b)]
                rep.case((n, i, j, a, b))
                arg = rng.choice([list, tuple])(ops)
                bad = same(SpinInteraction.matrix_function(arg, n, c), entries(ops, n, c), n)
                rep.expect(bad is None, "interaction/two", bad, n=n, ops=ops, c=c)
                rep.expect(list(arg) == ops, "interaction/frame", "operators argument changed", ops=ops)
    for n, i, j in itertools.product((8, 9, 10), range(10), range(10)):
        if i >= n or j >= n:
            continue
        for a, b in (rng.sample((("p", "m"), ("x", "y"), ("z", "p"), ("y", "z")), 1 if rep.tier == "quick" else 4)):
            bad = same(SpinInteraction.matrix_function([(i, a), (j, b)], n, -1.5), entries([(i, a), (j, b)], n, -1.5), n)
            rep.expect(bad is None, "interaction/far", bad, n=n, i=i, j=j)


def many(rep):
    rng = rep.rng
    for k in rep.rounds(500):
        n = rng.randint(1, 6)
        ops = [(rng.randrange(n), rng.choice(list(S))) for _ in range(rng.choice([0, 3, 3, 4, 5, 7]))]
        c = rng.choice(EXTREME)
        rep.case((n, tuple(ops)))
        bad = same(SpinInteraction.matrix_function(list(ops), n, c), entries(ops, n, c), n)
        rep.expect(bad is None, "interaction/many", bad, n=n, ops=ops, c=c)


def nudge(rng, s):
    """The same site to the configured precision, now and then with other coordinates."""
    if rng.random() < 0.6:
        return s
    return tuple(x + rng.choice([0.0, 2e-5, 6e-5]) * (-1 if x < 0 else 1) for x in s)


def objects(rep):
    rng = rep.rng
    for k in rep.rounds(500):
        n = rng.randint(1, 6)
        dim = rng.randint(1, 3)
        sites = []
        while len(sites) < n:
            s = tuple(rng.choice([-1.5, -1.0, -0.5, 0.5, 1.0, 2.0, 0.0]) for _ in range(dim))
            if s not in sites:
                sites.append(s)
        table = IndexTable([SiteID(s) for s in sites])
        idx = {s: i for i, s in enumerate(sites)}
        seq = [(rng.choice(list(S)), rng.choice(sites)) for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 5]))]
        ops = [SpinOperator(o, nudge(rng, s)) for o, s in seq]
        ind = [(idx[s], o) for o, s in seq]
        c = rng.choice(EXTREME)
        term = SpinInteraction(rng.choice([list, tuple])(ops), coeff=c)
        rep.case((n, tuple(ind)))
        bad = same(term.matrix_repr(table), entries(ind, n, c), n)
        rep.expect(bad is None, "matrix_repr", bad, seq=seq, sites=sites, c=c)
        c2 = rng.choice(COEFFS + [0, 0.0])
        bad = same(SpinInteraction(ops, coeff=c).matrix_repr(table, c2), entries(ind, n, c2), n)
        rep.expect(bad is None, "matrix_repr/coeff", bad, seq=seq, sites=sites, c=c2)
        bad = same(term.matrix_repr(table), entries(ind, n, c), n)
        rep.expect(bad is None, "matrix_repr/again", bad, seq=seq, sites=sites, c=c)
        bad = same(ops[0].matrix_repr(table), entries(ind[:1], n, 1), n)
        rep.expect(bad is None, "SpinOperator.matrix_repr", bad, seq=seq[0], sites=sites)
        # components keep the written order on each site
        for s in sites:
            mine = [o for o, t in seq if t == s]
            got = [p.otype for p in term.components if SiteID(p.coordinate) == SiteID(s)]
            rep.expect(mine == got, "components/order", got, seq=seq, site=s)


def run(rep):
    sections(rep, single, pairs, many, objects)
