"""C13: decompose, getIndex, getSite, in_cluster."""
import math
import numpy as np
from conf.harness import sections
from conf import lat
import HamiltonianPy.lattice.lattice as LM
from HamiltonianPy.lattice import Lattice, lattice_generator, special_cluster


def cost(P, V, site):
    """How many translations any search of a box must visit (keeps the run short)."""
    B = np.linalg.pinv(V)
    r = np.max(np.linalg.norm(site - P, axis=-1))
    spread = max(np.max(np.linalg.norm(P - p, axis=-1)) for p in P)
    k = math.ceil(np.max(np.linalg.norm(B, axis=0)) * (r + spread)) + 1
    return (2 * k + 1) ** len(V)


def one(rep, cl, P, V, rng, reach, tag):
    n, t = len(P), len(V)
    i = rng.randrange(n)
    while True:
        T = np.array([rng.randint(-reach, reach) for _ in range(t)])
        dR = T @ V
        site = P[i] + dR
        if reach <= 1 or cost(P, V, site) < 60000:
            break
        reach -= 1
    if cost(P, V, site) > 600000:
        return
    keep = site.copy()
    inp = dict(P=P, V=V, i=i, T=T, tag=tag)
    rep.case((tag, i, tuple(T), tuple(np.round(V.ravel(), 6))))
    try:
        p, d = cl.decompose(site)
    except RuntimeError as e:
        rep.fail("decompose/rejected", str(e), **inp)
        return
    tight = 1e-8 * (1 + np.max(np.abs(site)))
    rep.expect(np.allclose(p, P[i], atol=1e-9), "decompose/point", p, **inp)
    rep.expect(np.allclose(d, dR, atol=tight, rtol=0), "decompose/translation", d, **inp)
    rep.expect(np.allclose(p + d, site, atol=tight, rtol=0), "decompose/sum", p + d, **inp)
    # whatever is done with the answer must not matter
    p += 7
    d += 7
    rep.expect(np.array_equal(site, keep), "decompose/frame", "", **inp)
    rep.expect(int(cl.getIndex(site, fold=True)) == i, "getIndex/fold", "", **inp)
    if any(T):
        rep.raises(KeyError, lambda: cl.getIndex(site), "getIndex/unfold", "an outside site was accepted", **inp)
        rep.expect(cl.in_cluster(site) is False, "in_cluster/outside", "", **inp)
    else:
        rep.expect(int(cl.getIndex(site)) == i and cl.in_cluster(site) is True, "in_cluster/inside", "", **inp)
    j = rng.randrange(n)
    s = cl.getSite(j)
    rep.expect(np.array_equal(s, P[j]) and int(cl.getIndex(s)) == j and int(cl.getIndex(s, fold=True)) == j, "getSite", s, j=j, **inp)
    rep.expect(cl.in_cluster(s) is True, "in_cluster/getSite", "", j=j, **inp)
    s += 3
    rep.expect(np.array_equal(cl.points, P) and np.array_equal(cl.vectors, V), "frame", "", **inp)


def off(rep, cl, P, V, rng, tag):
    d = P.shape[1]
    site = np.array([rng.uniform(-6, 6) for _ in range(d)])
    if cost(P, V, site) > 60000:
        return
    m = min(lat.min_image(site - p, V) for p in P)
    if m < 5e-4:
        return
    inp = dict(P=P, V=V, site=site, tag=tag)
    rep.case((tag, "off", tuple(site)))
    rep.raises(RuntimeError, lambda: cl.decompose(site), "off/decompose", "", **inp)
    rep.raises((KeyError, RuntimeError), lambda: cl.getIndex(site, fold=True), "off/fold", "", **inp)
    rep.raises(KeyError, lambda: cl.getIndex(site), "off/getIndex", "", **inp)
    rep.expect(cl.in_cluster(site) is False, "off/in_cluster", "", **inp)


def random_lattices(rep):
    rng = rep.rng
    for r in rep.rounds(250):
        P, V = lat.rand_lattice(rng)
        cl = Lattice(P, V)
        for k in range(12):
            reach = rng.choice([0, 1, 1, 2, 3, 6]) if V.shape[0] == 3 else rng.choice([0, 1, 1, 2, 5, 12, 30])
            one(rep, cl, P, V, rng, reach, "random")
            if k % 3 == 0:
                off(rep, cl, P, V, rng, "random")
        for bad in (-1, len(P)):
            rep.raises((AssertionError, IndexError), lambda: cl.getSite(bad), "getSite/reject", bad)


def cluster_like(rep):
    """Clusters far larger than their translation vectors, points spread over many cells."""
    rng = rep.rng
    for r in rep.rounds(80):
        P, V = lat.rand_lattice(rng, npts=rng.randint(2, 6), skew=rng.choice([1, 3]))
        shift = np.array([[rng.randint(-4, 4) for _ in range(len(V))] for _ in P])
        P = P + shift @ V
        cl = Lattice(P, V)
        for k in range(8):
            one(rep, cl, P, V, rng, rng.choice([0, 1, 2, 4]), "spread")
        off(rep, cl, P, V, rng, "spread")


def fine(rep):
    """Short translation vectors, far-away sites; skewed vectors."""
    rng = rep.rng
    for r in rep.rounds(60):
        th = rng.choice([0.05, 0.1, 0.3])
        V = np.array([[1.0, 0.0], [rng.choice([1.0, 0.5, -1.0]), th]])
        P = np.array([[0.0, 0.0], [rng.uniform(0.2, 0.8), th * 0.5]])
        cl = Lattice(P, V)
        for k in range(8):
            one(rep, cl, P, V, rng, rng.choice([1, 3, 9]), "skew")
        off(rep, cl, P, V, rng, "skew")


def named(rep):
    rng = rep.rng
    cls = [lattice_generator("square", 3, 2), lattice_generator("honeycomb", 2, 2), lattice_generator("chain", 7),
           lattice_generator("cubic", 2, 1, 2), lattice_generator("kagome", 1, 3), special_cluster("cross"),
           special_cluster("star"), special_cluster("gear"), special_cluster("z"), lattice_generator("triangle", 4, 1)]
    for r in rep.rounds(60):
        for cl in cls:
            P, V = cl.points, cl.vectors
            one(rep, cl, P, V, rng, rng.choice([0, 1, 2, 4]), "named")
        off(rep, cl, P, V, rng, "named")


def precision(rep):
    """Other configured precisions: sites further from the lattice than the precision are rejected."""
    rng = rep.rng
    lats = [(np.array([[0.0]]), np.array([[1.0]])), (np.array([[0.0, 0.0], [0.5, 0.0]]), np.array([[1.0, 0.0], [0.25, 1.0]]))]
    try:
        for p in (1, 2, 6):
            LM.set_float_point_precision(p)
            eps = 10.0 ** -p
            for P, V in lats:
                cl = Lattice(P, V)
                for k in range(6):
                    one(rep, cl, P, V, rng, rng.choice([0, 1, 3]), "precision%d" % p)
                    for f in (1.5, 2.3):
                        T = np.array([rng.randint(-1, 1) for _ in range(len(V))])
                        e = np.zeros(P.shape[1])
                        e[rng.randrange(P.shape[1])] = rng.choice([-1, 1]) * f * eps
                        site = P[rng.randrange(len(P))] + T @ V + e
                        inp = dict(precision=p, P=P, V=V, site=site)
                        rep.case((p, tuple(site)))
                        rep.raises(RuntimeError, lambda: cl.decompose(site), "precision/decompose", "", **inp)
                        rep.raises(KeyError, lambda: cl.getIndex(site), "precision/getIndex", "", **inp)
                        rep.expect(cl.in_cluster(site) is False, "precision/in_cluster", "", **inp)
    finally:
        LM.set_float_point_precision(4)


def run(rep):
    sections(rep, named, random_lattices, cluster_like, fine, precision)
