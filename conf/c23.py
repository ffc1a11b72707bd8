"""C23: permutation and combination counts."""
import math
from conf.harness import sections
from HamiltonianPy.tools.PandC import Permutation, Combination


def want(n, k):
    p = 1
    for i in range(k):
        p *= n - i
    c = p // math.prod(range(1, k + 1))
    cr = 1 if k == 0 else math.comb(n + k - 1, k)
    return p, n ** k, c, cr


def one(rep, n, k):
    rep.case((n, k))
    p, pr, c, cr = want(n, k)
    for name, got, w in (("Permutation", Permutation(n, k), p), ("Permutation/repeat", Permutation(n, k, repeat=True), pr),
                         ("Combination", Combination(n, k), c), ("Combination/repeat", Combination(n, k, repeat=True), cr)):
        rep.expect(type(got) is int and got == w, name, "%r instead of %r" % (got, w) if n < 800 else "", n=n, k=k)


def small(rep):
    for n in range(0, 60):
        for k in range(0, n + 1):
            one(rep, n, k)


def large(rep):
    rng = rep.rng
    for r in rep.rounds(300):
        n = rng.randint(60, 600)
        one(rep, n, rng.choice([0, 1, 2, n, n - 1, rng.randint(0, n)]))
    for n in (1030, 1500, 2200):
        for k in (n, n - 3, 1025, rng.randint(0, n)):
            one(rep, n, k)


def rejects(rep):
    for fn in (Permutation, Combination):
        for rpt in (False, True):
            for n, k in ((-1, 0), (-3, -3), (3, -1), (3, 4), (0, 1), (3.0, 2), (3, 2.0), ("3", 2), (3, None), (2.5, 1), (170, 171)):
                rep.case((fn.__name__, rpt, str(n), str(k)))
                rep.raises((AssertionError, ValueError, TypeError), lambda: fn(n, k, repeat=rpt), fn.__name__ + "/reject", (n, k, rpt))


def run(rep):
    sections(rep, small, large, rejects)
