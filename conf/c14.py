"""C14: neighbour distances and bonds."""
import numpy as np
from conf.harness import sections
from conf import lat
from HamiltonianPy.lattice import Lattice, lattice_generator, special_cluster


def oracle(P, V, nmax):
    """distinct distances 0=d0<...<d_nmax and all ordered pairs, or None if too close together."""
    R = 1.3 * min(np.linalg.norm(v) for v in V)
    for _ in range(8):
        try:
            prs = lat.pair_distances(P, V, R)
        except OverflowError:
            return None
        if len(prs) > 60000:
            return None
        ds = lat.distinct([p[3] for p in prs])
        if len(ds) > nmax + 1:
            if not lat.well_separated(ds[:nmax + 2]):
                return None
            return ds[:nmax + 1], [p for p in prs if p[3] <= ds[nmax] + 1e-6]
        R *= 1.5
    return None


def canon(i, j, T):
    a, b = (i, j, T), (j, i, tuple(-x for x in T))
    return min(a, b)


def locate(P, V, x):
    """(point index, translation) of a site."""
    pinv = np.linalg.pinv(V)
    for i, p in enumerate(P):
        T = np.rint((x - p) @ pinv)
        if np.allclose(p + T @ V, x, atol=1e-6):
            return i, tuple(int(t) for t in T)
    return None


def bond_key(P, V, b, rep, key, inp):
    e0, e1 = b.endpoints
    a, c = locate(P, V, e0), locate(P, V, e1)
    if a is None or c is None:
        rep.fail(key + "/foreign", "endpoint is not a lattice site: %r" % (b,), **inp)
        return None
    T = tuple(y - x for x, y in zip(a[1], c[1]))
    return canon(a[0], c[0], T), a, c


def check(rep, mk, P, V, nmax, rng, tag):
    o = oracle(P, V, nmax)
    if o is None:
        return
    ds, prs = o
    inp0 = dict(P=P, V=V, tag=tag)
    cl = mk()
    order = [rng.randint(0, nmax) for _ in range(4)] + list(range(nmax + 1))
    if rng.random() < 0.5:
        order = order[::-1]
    for n in order:
        got = cl.neighbor_distance(n)
        rep.case((tag, n, round(ds[n], 6), len(P)))
        rep.expect(abs(got - ds[n]) <= 1.01e-4, "neighbor_distance", "neighbor_distance(%d) = %r, expected %r" % (n, got, ds[n]), order=order, **inp0)
    if rng.random() < 0.5:
        cl = mk()
    for only in (True, False):
        for n in range(1, nmax + 1):
            want = {}
            for i, j, T, L in prs:
                if L < 1e-9:
                    continue
                if (abs(L - ds[n]) < 1e-6) if only else (L < ds[n] + 1e-6):
                    want[canon(i, j, T)] = L
            intra, inter = cl.bonds(n, only=only)
            inp = dict(n=n, only=only, **inp0)
            seen = {}
            for part, bs in (("intra", intra), ("inter", inter)):
                for b in bs:
                    r = bond_key(P, V, b, rep, "bonds", inp)
                    if r is None:
                        continue
                    k, a, c = r
                    rep.expect(b.directional, "bonds/directional", b, **inp)
                    if k in seen:
                        rep.fail("bonds/duplicate", "pair listed twice: %r" % (b,), **inp)
                    seen[k] = part
                    inside = [not any(x[1]) for x in (a, c)]
                    if part == "intra":
                        rep.expect(all(inside), "bonds/intra", "intra bond leaves the cluster: %r" % (b,), **inp)
                    else:
                        rep.expect(inside[0] and not inside[1], "bonds/inter", "inter bond does not cross the boundary: %r" % (b,), **inp)
            missing = set(want) - set(seen)
            extra = set(seen) - set(want)
            rep.case((tag, n, only, len(want)))
            rep.expect(not missing, "bonds/missing", "missing pairs %r" % sorted(missing)[:3], **inp)
            rep.expect(not extra, "bonds/extra", "extra pairs %r" % sorted(extra)[:3], **inp)
            fi, fo = cl.bonds(n, only=only, fold=True)
            rep.expect(sorted(map(repr_b, fi)) == sorted(map(repr_b, intra)), "bonds/fold/intra", "folding changed intra bonds", **inp)
            want_f = []
            for b in inter:
                e0, e1 = b.endpoints
                l = locate(P, V, e1)
                if l is not None:
                    want_f.append(rnd(e0, P[l[0]]))
            rep.expect(sorted(want_f) == sorted(repr_b(b) for b in fo), "bonds/fold/inter", "folded bonds differ", **inp)
            rep.expect(all(b.directional for b in fo), "bonds/fold/directional", "", **inp)
    intra, inter = cl.bonds(0)
    rep.expect(sorted(repr_b(b) for b in intra) == sorted(rnd(p, p) for p in P) and not inter, "bonds/zero", "", **inp0)
    rep.expect(np.array_equal(cl.points, P) and np.array_equal(cl.vectors, V), "frame", "", **inp0)
    for n in range(nmax + 1):
        rep.expect(abs(cl.neighbor_distance(n) - ds[n]) <= 1.01e-4, "neighbor_distance/after", "n=%d" % n, **inp0)


def rnd(a, b):
    return tuple(float(x) + 0.0 for x in np.round(np.concatenate([a, b]), 6) + 0.0)


def repr_b(b):
    return rnd(*b.endpoints)


def named(rep):
    rng = rep.rng
    items = [("square", (3, 1, 1), 5), ("square", (1, 1, 1), 5), ("square", (2, 2, 1), 4), ("chain", (1, 1, 1), 4), ("chain", (5, 1, 1), 7), ("honeycomb", (1, 1, 1), 5),
             ("honeycomb", (2, 1, 1), 3), ("triangle", (2, 3, 1), 4), ("kagome", (1, 1, 1), 4), ("kagome", (1, 2, 1), 3), ("cubic", (1, 1, 1), 4),
             ("cubic", (2, 1, 1), 3), ("triangle", (1, 1, 1), 6), ("square", (1, 4, 1), 6), ("cubic", (1, 2, 2), 3)]
    for which, nums, nmax in items:
        mk = lambda: lattice_generator(which, *nums)
        cl = mk()
        check(rep, mk, cl.points, cl.vectors, nmax, rng, "%s%r" % (which, nums))
    for sp, nmax in (("cross", 3), ("z", 3), ("s", 2), ("star", 3), ("benzene", 4), ("diphenyl", 3), ("gear", 2)):
        mk = lambda: special_cluster(sp)
        cl = mk()
        check(rep, mk, cl.points, cl.vectors, nmax, rng, sp)


def rand(rep):
    rng = rep.rng
    for r in rep.rounds(150, 1500):
        P, V = lat.rand_lattice(rng, npts=rng.randint(1, 3), dim=rng.choice([1, 2, 2, 3]), skew=rng.choice([0, 1, 2]), scale=rng.choice([None, None, 0.2, 8.0, 30.0]))
        if rng.random() < 0.3:
            P = P + np.array([[rng.randint(-2, 2) for _ in range(len(V))] for _ in P]) @ V
        check(rep, lambda: Lattice(P, V), P, V, rng.randint(1, 3), rng, "random")


def run(rep):
    sections(rep, named, rand)
